From 0bf5bb29c68230c3fcf7023542d919cb304895ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:43 +0000
Subject: [PATCH 01/91] fix: DiscreteSpace lower_bound / upper_bound could not
 be instantiated

---
 code/include/swoc/DiscreteRange.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index cfd8dba..284ee15 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1170,14 +1170,14 @@ template <typename METRIC, typename PAYLOAD>
 auto
 DiscreteSpace<METRIC, PAYLOAD>::lower_bound(METRIC const &m) -> iterator {
   auto n = this->lower_node(m);
-  return n ? iterator(n) : this->end();
+  return n ? _list.iterator_for(n) : this->end();
 }
 
 template <typename METRIC, typename PAYLOAD>
 auto
 DiscreteSpace<METRIC, PAYLOAD>::upper_bound(METRIC const &m) -> iterator {
   auto n = this->upper_node(m);
-  return n ? iterator(n) : this->end();
+  return n ? _list.iterator_for(n) : this->end();
 }
 
 template <typename METRIC, typename PAYLOAD>
-- 
2.43.0


From 9f870c795e33c31ad69d97ef5853b11b306c9331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:43 +0000
Subject: [PATCH 02/91] fix: DiscreteSpace::erase ignored ranges that start
 past the start of the erased range

---
 code/include/swoc/DiscreteRange.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 284ee15..5fae2d1 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1275,6 +1275,9 @@ template <typename METRIC, typename PAYLOAD>
 DiscreteSpace<METRIC, PAYLOAD> &
 DiscreteSpace<METRIC, PAYLOAD>::erase(DiscreteSpace::range_type const &range) {
   Node *n = this->lower_node(range.min()); // current node.
+  if (nullptr == n) {
+    n = this->head(); // no range starts at or before @a range, but later ones can still overlap.
+  }
   while (n) {
     auto nn = next(n);            // cache in case @a n disappears.
     if (n->min() > range.max()) { // cleared the target range, done.
-- 
2.43.0


From dc0541ecbe67419cae9f7a14872f2e4ff4d26989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:43 +0000
Subject: [PATCH 03/91] fix: DiscreteSpace::blend colored values outside the
 range or with the wrong color

Extending a neighbor to cover an unmapped gap did not check that the neighbor was adjacent, that the gap
was to be colored at all, or that the neighbor was itself still to be blended. A range ending at the
metric maximum wrapped and restarted at the minimum.
---
 code/include/swoc/DiscreteRange.h | 40 +++++++++++++++++--------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 5fae2d1..a2cdb6b 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1606,6 +1606,9 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
           }
           n = fn; // skip to use new node as current node.
         }
+        if (n->max() == detail::maximum<METRIC>()) {
+          return *this; // nothing past @a n.
+        }
         remaining.assign_min(++metric_type(n->max())); // going to fill up n->max(), clip target.
       } else {                                         // clear, don't fill.
         auto n_r = n->range();                         // cache to avoid ordering requirements.
@@ -1646,7 +1649,8 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
     if (!right_overlap_p) {
       // @a pred has the same color as would be used for unmapped values
       // and is adjacent to @a remaining.
-      bool pred_plain_colored_p = pred && ++metric_type(pred->max()) == remaining.min() && pred->payload() == plain_color;
+      bool pred_plain_colored_p =
+        plain_color_p && pred && ++metric_type(pred->max()) == remaining.min() && pred->payload() == plain_color;
 
       if (right_adj_p && n_plain_colored_p) { // can pull @a n left to cover
         n->assign_min(remaining.min());
@@ -1666,23 +1670,14 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
     // Invariant: @n has right overlap with @a remaining
 
     // If there's a gap on the left, fill from @a r.min to @a n.min - 1
+    // @a n isn't extended because @a color must still be blended in to it.
     if (plain_color_p && remaining.min() < n->min()) {
-      if (n->payload() == plain_color) {
-        if (pred && pred->payload() == n->payload()) {
-          auto pred_min{pred->min()};
-          this->remove(pred);
-          n->assign_min(pred_min);
-        } else {
-          n->assign_min(remaining.min());
-        }
+      auto n_min_minus_1{n->min()};
+      --n_min_minus_1;
+      if (pred && pred->payload() == plain_color && pred->range().is_left_adjacent_to(remaining)) {
+        pred->assign_max(n_min_minus_1);
       } else {
-        auto n_min_minus_1{n->min()};
-        --n_min_minus_1;
-        if (pred && pred->payload() == plain_color) {
-          pred->assign_max(n_min_minus_1);
-        } else {
-          this->insert_before(n, _fa.make(remaining.min(), n_min_minus_1, plain_color));
-        }
+        this->insert_before(n, _fa.make(remaining.min(), n_min_minus_1, plain_color));
       }
     }
 
@@ -1693,7 +1688,8 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
     unique_node fill{_fa.make(n->min(), max, n->payload()), node_cleaner};
     bool fill_p = blender(fill->payload(), color); // fill or clear?
     auto next_n = next(n);                         // cache this in case @a n is removed.
-    remaining.assign_min(++METRIC{fill->max()});   // Update what is left to fill.
+    bool last_p = fill->max() == detail::maximum<METRIC>(); // Nothing can be left to fill past this.
+    remaining.assign_min(++METRIC{fill->max()});            // Update what is left to fill.
 
     // Clean up the range for @a n
     if (fill_p) {
@@ -1703,7 +1699,11 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
 
       if (right_ext_p) {
         if (n->payload() == fill->payload()) {
-          n->assign_min(fill->min());
+          if (pred_adj_p) {
+            auto pred_min{pred->min()};
+            this->remove(pred);
+            n->assign_min(pred_min);
+          }
         } else {
           n->assign_min(range_max_plus_1);
           if (pred_adj_p) {
@@ -1730,6 +1730,10 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
       this->remove(n);
     }
 
+    if (last_p) {
+      return *this;
+    }
+
     // Everything up to @a n.max is correct, time to process next node.
     n = next_n;
   }
-- 
2.43.0


From 5c65668bccc3c8662d46d875c3236fd40ded061b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:36 +0000
Subject: [PATCH 04/91] fix: MemArena move assignment lost track of the static
 block

---
 code/src/MemArena.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/src/MemArena.cc b/code/src/MemArena.cc
index 1d4d708..f2fea75 100644
--- a/code/src/MemArena.cc
+++ b/code/src/MemArena.cc
@@ -66,6 +66,9 @@ MemArena::operator=(swoc::MemArena::self_type &&that) noexcept {
   std::swap(_reserve_hint, that._reserve_hint);
   _active = std::move(that._active);
   _frozen = std::move(that._frozen);
+  // If the blocks are moved, the static block must be too or it would be freed.
+  _static_block      = that._static_block;
+  that._static_block = nullptr;
   return *this;
 }
 
-- 
2.43.0


From 2040fb6433c1f6524cbb5453b475b9d9f70bbc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:36 +0000
Subject: [PATCH 05/91] fix: MemArena::thaw discarded live allocations in an
 active static block

---
 code/src/MemArena.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/src/MemArena.cc b/code/src/MemArena.cc
index f2fea75..62d7153 100644
--- a/code/src/MemArena.cc
+++ b/code/src/MemArena.cc
@@ -136,7 +136,8 @@ MemArena &
 MemArena::thaw() {
   this->destroy_frozen();
   _frozen_reserved = _frozen_allocated = 0;
-  if (_static_block) {
+  // Recycle the static block, unless it is still active and therefore may contain live allocations.
+  if (_static_block && std::none_of(_active.begin(), _active.end(), [this](Block const &b) { return &b == _static_block; })) {
     _static_block->discard();
     _active.prepend(_static_block);
     _active_reserved += _static_block->remaining();
-- 
2.43.0


From 79a8ef2cbb9d41300c11228169a6b1034ff5a268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:36 +0000
Subject: [PATCH 06/91] fix: MemArena alloc threw if alignment padding did not
 fit in a new block

---
 code/src/MemArena.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/src/MemArena.cc b/code/src/MemArena.cc
index 62d7153..77a8d0c 100644
--- a/code/src/MemArena.cc
+++ b/code/src/MemArena.cc
@@ -166,7 +166,8 @@ MemArena::require(size_t n, size_t align) {
     }
   }
   if (spot == _active.end()) {   // no block has enough free space
-    block = this->make_block(n); // assuming a new block is sufficiently aligned.
+    // Blocks are only paragraph aligned, reserve space for the padding needed for stricter alignment.
+    block = this->make_block(align > Paragraph::SCALE ? n + align : n);
     _active.prepend(block);
   } else if (spot != _active.begin()) {
     // big enough space, move to the head of the list.
-- 
2.43.0


From 29c6e5f10ce106aa4748b846d8d1be7bd30511e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:36 +0000
Subject: [PATCH 07/91] fix: MemArena aligned remnant was not aligned or not
 the requested size

---
 code/include/swoc/MemArena.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/MemArena.h b/code/include/swoc/MemArena.h
index e0b25fb..4432443 100644
--- a/code/include/swoc/MemArena.h
+++ b/code/include/swoc/MemArena.h
@@ -696,8 +696,7 @@ inline MemSpan<char> MemArena::localize_c(char const * s) {
 template <typename T>
 MemSpan<T>
 MemArena::remnant_span(size_t n) {
-  auto span = this->require(sizeof(T) * n, alignof(T)).remnant();
-  return span.remove_prefix(Block::align_padding(span.data(), alignof(T))).rebind<T>();
+  return this->remnant(sizeof(T) * n, alignof(T)).template rebind<T>();
 }
 
 template <>
@@ -708,7 +707,9 @@ MemArena::remnant_span<void>(size_t n) {
 
 inline MemSpan<void>
 MemArena::remnant(size_t n, size_t align) {
-  return this->require(n, align).remnant().prefix(n);
+  auto span = this->require(n, align).remnant();
+  span.remove_prefix(Block::align_padding(span.data(), align));
+  return span.prefix(n);
 }
 
 inline size_t
-- 
2.43.0


From 476dbde7154bd9137a4e2d59ffa7d5878da1e59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:36 +0000
Subject: [PATCH 08/91] fix: MemArena::localize_c read past the source and
 included the terminator in the view

---
 code/include/swoc/MemArena.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemArena.h b/code/include/swoc/MemArena.h
index 4432443..330501f 100644
--- a/code/include/swoc/MemArena.h
+++ b/code/include/swoc/MemArena.h
@@ -684,9 +684,9 @@ inline MemSpan<char> MemArena::localize(char const * s) {
 
 inline MemSpan<char> MemArena::localize_c(MemSpan<char const> s) {
   auto span = this->alloc(s.size() + 1).rebind<char>();
-  memcpy(span.data(), s.data(), span.size());
+  memcpy(span.data(), s.data(), s.size());
   span[s.size()] = '\0';
-  return { span.data(), span.size() };
+  return { span.data(), s.size() };
 }
 
 inline MemSpan<char> MemArena::localize_c(char const * s) {
-- 
2.43.0


From a1459c9ddc41c4317bdd03bcefb8cc9344a3382f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:26 +0000
Subject: [PATCH 09/91] fix: DiscreteRange relationship, has_union and
 operator^ could not be instantiated

---
 code/include/swoc/DiscreteRange.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index a2cdb6b..f66e1b4 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -464,7 +464,7 @@ template <typename T>
 auto
 DiscreteRange<T>::relationship(self_type const &that) const -> Relation {
   Relation retval = Relation::NONE;
-  if (this->has_intersection(that)) {
+  if (this->has_intersection_with(that)) {
     if (*this == that)
       retval = Relation::EQUAL;
     else if (this->is_subset_of(that))
@@ -568,7 +568,7 @@ DiscreteRange<T>::max() const {
 template <typename T>
 bool
 DiscreteRange<T>::has_union(DiscreteRange::self_type const &that) const {
-  return this->has_intersection(that) || this->is_adjacent_to(that);
+  return this->has_intersection_with(that) || this->is_adjacent_to(that);
 }
 
 template <typename T>
@@ -644,7 +644,7 @@ operator!=(DiscreteRange<T> const &lhs, DiscreteRange<T> const &rhs) {
 template <typename T>
 bool
 operator^(DiscreteRange<T> const &lhs, DiscreteRange<T> const &rhs) {
-  return lhs.has_intersection(rhs);
+  return lhs.has_intersection_with(rhs);
 }
 
 /** Containment ordering.
-- 
2.43.0


From 193df5c30f9f8251e7369d70eb48d49333efa944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:26 +0000
Subject: [PATCH 10/91] fix: DiscreteRange::left_edge_relationship compared the
 right edge of the other range

---
 code/include/swoc/DiscreteRange.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index f66e1b4..348a8c3 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -454,10 +454,11 @@ DiscreteRange<T>::hull(DiscreteRange::self_type const &that) const {
 template <typename T>
 auto
 DiscreteRange<T>::left_edge_relationship(self_type const &that) const -> EdgeRelation {
-  if (_max < that._max) {
-    return ++metric_type(_max) < that._max ? EdgeRelation::GAP : EdgeRelation::ADJ;
+  if (_max < that._min) {
+    metric_type max(_max); // some built in integer types don't support increment on rvalues.
+    return ++max < that._min ? EdgeRelation::GAP : EdgeRelation::ADJ;
   }
-  return _min >= that._min ? EdgeRelation::NONE : EdgeRelation::OVLP;
+  return that._min < _min ? EdgeRelation::NONE : EdgeRelation::OVLP;
 }
 
 template <typename T>
-- 
2.43.0


From 00d8e58bd804a837dfd9ce9bc2dcd769d81bd1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:26 +0000
Subject: [PATCH 11/91] fix: DiscreteRange::has_intersection_with was true for
 some empty ranges

---
 code/include/swoc/DiscreteRange.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 348a8c3..21f55d4 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -582,7 +582,7 @@ DiscreteRange<T>::operator&=(DiscreteRange::self_type const &that) {
 template <typename T>
 bool
 DiscreteRange<T>::has_intersection_with(DiscreteRange::self_type const &that) const {
-  return (that._min <= _min && _min <= that._max) || (_min <= that._min && that._min <= _max);
+  return std::max(_min, that._min) <= std::min(_max, that._max);
 }
 
 template <typename T>
-- 
2.43.0


From 4f73f24eac5003b83a7569b8ceb47f13dacb6fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 12/91] fix: IPAddr ordering put IPv6 before IPv4 and IPv4
 before IPv6

---
 code/src/swoc_ip.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 6403922..c71109a 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -588,7 +588,7 @@ IPAddr::operator<(self_type const &that) const {
   } else if (AF_INET6 == _family) {
     switch (that._family) {
     case AF_INET:
-      return true;
+      return false;
     case AF_INET6:
       return _addr._ip6 < that._addr._ip6;
     default:
-- 
2.43.0


From 261688b1c7cc268c1d3af3f75b2908b2b591ce8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 13/91] fix: IPRange::contains(IPAddr) checked IPv6 ranges as
 if IPv4

---
 code/include/swoc/IPRange.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/IPRange.h b/code/include/swoc/IPRange.h
index 547afdb..6cc756f 100644
--- a/code/include/swoc/IPRange.h
+++ b/code/include/swoc/IPRange.h
@@ -2007,7 +2007,7 @@ inline bool IPRange::contains(IPAddr const & addr) const {
   if (addr.family() != _family) {
     return false;
   }
-  if (this->ip4()) {
+  if (this->is_ip4()) {
     return _range._ip4.contains(addr.ip4());
   } else if (this->is_ip6()) {
     return _range._ip6.contains(addr.ip6());
-- 
2.43.0


From 17ff031e6d7c1b306f81db5f680f776233b3826f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 14/91] fix: IP4Addr::load rejected bracketed addresses and
 accepted empty octets

---
 code/src/swoc_ip.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index c71109a..94d1994 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -304,7 +304,13 @@ IP4Addr::load(std::string_view const &text) {
 
   // empty or trailing dot or empty brackets or unmatched brackets.
   src.trim_if(&isspace);
-  if (src.empty() || src.back() == '.' || ('[' == *src && ((++src).empty() || src.back() != ']'))) {
+  if (!src.empty() && '[' == *src) {
+    if ((++src).empty() || src.back() != ']') {
+      return false;
+    }
+    src.remove_suffix(1);
+  }
+  if (src.empty() || src.back() == '.') {
     return false;
   }
 
@@ -313,7 +319,7 @@ IP4Addr::load(std::string_view const &text) {
     TextView parsed;
     auto token = src.take_prefix_at('.');
     auto v     = svtou(token, &parsed);
-    if (parsed.size() != token.size()) {
+    if (token.empty() || parsed.size() != token.size()) {
       break;
     }
     if (src.empty()) {
-- 
2.43.0


From ddcb063f05e504eda6a18a806c55862556dc8bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 15/91] fix: IP6Addr::load accepted invalid text

---
 code/src/swoc_ip.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 94d1994..2a03e52 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -427,6 +427,7 @@ IP6Addr::load(std::string_view const &str) {
   int empty_idx = -1;
   auto quad     = _addr._quad.data();
 
+  this->clear();
   src.trim_if(&isspace);
   if (src && '[' == *src) {
     ++src;
@@ -436,7 +437,8 @@ IP6Addr::load(std::string_view const &str) {
     src.remove_suffix(1);
   }
 
-  if (src.size() < 2) {
+  // Must have at least "::", and a trailing ':' can only be part of a trailing "::".
+  if (src.size() < 2 || (src.back() == ':' && src[src.size() - 2] != ':')) {
     return false;
   }
 
@@ -466,16 +468,18 @@ IP6Addr::load(std::string_view const &str) {
     TextView token{src.take_prefix_at(':')};
     if (token.empty()) {
       if (empty_idx >= 0) { // two instances of "::", fail.
+        this->clear();
         return false;
       }
       empty_idx = n;
     } else {
       TextView r;
-      auto x = svtoi(token, &r, 16);
-      if (r.size() == token.size()) {
+      auto x = svtou(token, &r, 16);
+      if (r.size() == token.size() && token.size() <= 4) {
         quad[QUAD_IDX[n++]] = x;
       } else {
-        break;
+        this->clear();
+        return false;
       }
     }
   }
@@ -490,6 +494,7 @@ IP6Addr::load(std::string_view const &str) {
       }
       n = N_QUADS; // Mark success.
     } else {
+      this->clear();
       return false; // too many quads - full set plus empty.
     }
   }
-- 
2.43.0


From 051552179d6d17262a101cb479b6bfadd855ba91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 16/91] fix: network masks wider than the address were accepted
 or truncated

---
 code/src/swoc_ip.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 2a03e52..1b20b05 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -673,11 +673,12 @@ bool operator == (IPAddr const& lhs, sockaddr const * sa) {
 bool
 IPMask::load(string_view const &text) {
   TextView parsed;
-  _cidr = swoc::svtou(text, &parsed);
-  if (parsed.size() != text.size()) {
+  auto n = swoc::svtou(text, &parsed);
+  if (text.empty() || parsed.size() != text.size() || n > IP6Addr::WIDTH) {
     _cidr = 0;
     return false;
   }
+  _cidr = n;
   return true;
 }
 
@@ -870,7 +871,7 @@ IP4Net::load(TextView text) {
           mask_p = (m == mask.as_ip4()); // must be an actual mask like address.
         }
       }
-      if (mask_p) {
+      if (mask_p && mask.width() <= IP4Addr::WIDTH) {
         this->assign(addr, mask);
         return true;
       }
@@ -893,7 +894,7 @@ IP6Net::load(TextView text) {
           mask_p = (m == mask.as_ip6()); // must be an actual mask like address.
         }
       }
-      if (mask_p) {
+      if (mask_p && mask.width() <= IP6Addr::WIDTH) {
         this->assign(addr, mask);
         return true;
       }
@@ -928,7 +929,7 @@ IPNet::load(TextView text) {
           mask_p = (m == mask.as_ip4()); // must be an actual mask like address.
         }
       }
-      if (mask_p) {
+      if (mask_p && mask.width() <= IP4Addr::WIDTH) {
         this->assign(a4, mask);
         return true;
       }
@@ -972,7 +973,7 @@ IP4Range::load(string_view text) {
         if (addr.load(text.substr(0, idx))) { // load the address
           IPMask mask;
           text.remove_prefix(idx + 1); // drop address and separator.
-          if (mask.load(text)) {
+          if (mask.load(text) && mask.width() <= metric_type::WIDTH) {
             this->assign(addr, mask);
             return true;
           }
@@ -1093,7 +1094,7 @@ IP6Range::load(std::string_view text) {
         if (addr.load(text.substr(0, idx))) { // load the address
           IPMask mask;
           text.remove_prefix(idx + 1); // drop address and separator.
-          if (mask.load(text)) {
+          if (mask.load(text) && mask.width() <= metric_type::WIDTH) {
             this->assign(addr, mask);
             return true;
           }
-- 
2.43.0


From 59f26e916ffaec78928443ab591c9cb28c5b2bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 17/91] fix: IPRange::load did not invalidate the range on
 failure

---
 code/src/swoc_ip.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 1b20b05..a73060d 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -1131,6 +1131,7 @@ IPRange::load(std::string_view const &text) {
     return true;
   }
 
+  this->clear();
   return false;
 }
 
-- 
2.43.0


From 1b31912ecef6ef0b455576a5039ed1c18ad777f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 18/91] fix: IPEndpoint::tokenize read past the text and
 accepted an unmatched bracket

---
 code/src/swoc_ip.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index a73060d..b6628ce 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -168,10 +168,17 @@ IPEndpoint::tokenize(std::string_view str, std::string_view *addr, std::string_v
     bool colon_p = false;
     src.ltrim_if(&isspace);
     // Check for brackets.
+    if (src.empty()) {
+      return false;
+    }
     if ('[' == *src) {
       ++src; // skip bracket.
+      if (src.find(']') == TextView::npos) { // unmatched bracket.
+        *rest = src;
+        return false;
+      }
       *addr = src.take_prefix_at(']');
-      if (':' == *src) {
+      if (!src.empty() && ':' == *src) {
         colon_p = true;
         ++src;
       }
-- 
2.43.0


From bb3f6a27211213b61fbd08b07e3fa1512dffb01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 19/91] fix: IPEndpoint was left with stale or uninitialized
 content

---
 code/src/swoc_ip.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index b6628ce..2733333 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -99,6 +99,9 @@ IPEndpoint::assign(IPAddr const &src) {
     sa6.sin6_addr   = src.ip6().network_order();
     Set_Sockaddr_Len(&sa6);
   } break;
+  default:
+    this->invalidate();
+    break;
   }
   return *this;
 }
@@ -140,7 +143,7 @@ IPEndpoint::assign(IPSrv const &srv) {
   } else if (srv.is_ip6()) {
     return this->assign(srv.ip6());
   }
-  return *this;
+  return this->invalidate();
 }
 
 bool
@@ -214,6 +217,7 @@ IPEndpoint::parse(std::string_view const &str) {
     this->assign(srv);
     return true;
   }
+  this->invalidate();
   return false;
 }
 
-- 
2.43.0


From 6f01099be8b778e28c82dd29d432dd943b9c2b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 20/91] fix: family name of an IPAddr was formatted as a number

---
 code/src/bw_ip_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/bw_ip_format.cc b/code/src/bw_ip_format.cc
index 2fd66fb..25cb07c 100644
--- a/code/src/bw_ip_format.cc
+++ b/code/src/bw_ip_format.cc
@@ -289,7 +289,7 @@ bwformat(BufferWriter &w, Spec const &spec, IPAddr const &addr) {
     if (spec.has_numeric_type()) {
       bwformat(w, local_spec, static_cast<uintmax_t>(addr.family()));
     } else {
-      swoc::bwformat(w, local_spec, addr.family());
+      swoc::bwformat(w, local_spec, IPEndpoint::family_name(addr.family()));
     }
   }
   return w;
-- 
2.43.0


From 267be3af0a7167f594bb2b2480ed7212ac3b7f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:57 +0000
Subject: [PATCH 21/91] fix: post increment of the IP6Range and IPRange network
 iterators was not defined

---
 code/include/swoc/IPRange.h | 7 +++++++
 code/src/swoc_ip.cc         | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/code/include/swoc/IPRange.h b/code/include/swoc/IPRange.h
index 6cc756f..aae045a 100644
--- a/code/include/swoc/IPRange.h
+++ b/code/include/swoc/IPRange.h
@@ -2431,6 +2431,13 @@ IPRange::NetSource::operator++() -> self_type & {
   return *this;
 }
 
+inline auto
+IPRange::NetSource::operator++(int) -> self_type {
+  auto zret{*this};
+  ++*this;
+  return zret;
+}
+
 inline auto
 IPRange::NetSource::operator->() -> self_type * {
   return this;
diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 2733333..6ae32f7 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -1244,6 +1244,13 @@ IP6Range::NetSource::operator++() -> self_type & {
   return *this;
 }
 
+auto
+IP6Range::NetSource::operator++(int) -> self_type {
+  auto zret{*this};
+  ++*this;
+  return zret;
+}
+
 void
 IP6Range::NetSource::search_wider() {
   while (_mask.width() > 0) {
-- 
2.43.0


From 0dd01332c5e10c62e9a5d413cd5cc94af8e70d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:54 +0000
Subject: [PATCH 22/91] fix: IPEndpoint::tokenize returned false if called with
 only the source text

---
 code/src/swoc_ip.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 6ae32f7..8243aa0 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -150,16 +150,16 @@ bool
 IPEndpoint::tokenize(std::string_view str, std::string_view *addr, std::string_view *port, std::string_view *rest) {
   TextView src(str); /// Easier to work with for parsing.
   // In case the incoming arguments are null, set them here and only check for null once.
-  // it doesn't matter if it's all the same, the results will be thrown away.
-  std::string_view local;
+  // These must be distinct, @a addr is checked after @a port and @a rest are set.
+  std::string_view local_addr, local_port, local_rest;
   if (!addr) {
-    addr = &local;
+    addr = &local_addr;
   }
   if (!port) {
-    port = &local;
+    port = &local_port;
   }
   if (!rest) {
-    rest = &local;
+    rest = &local_rest;
   }
 
   *addr = std::string_view{};
-- 
2.43.0


From b119bb02888fa531bdbad466e49da80c920529fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:08 +0000
Subject: [PATCH 23/91] fix: TextView::split_suffix emptied the view if the
 suffix was not in it

---
 code/include/swoc/TextView.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 01ddb65..61c8e6e 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1445,10 +1445,11 @@ TextView::remove_suffix_if(F const &pred) {
 
 inline TextView
 TextView::split_suffix(size_t n) {
-  self_type zret;
-  n    = std::min(n, this->size());
-  zret = this->suffix(n);
-  this->remove_suffix(n + 1);
+  self_type zret; // default to empty return.
+  if (n < this->size()) {
+    zret = this->suffix(n);
+    this->remove_suffix(n + 1);
+  }
   return zret;
 }
 
-- 
2.43.0


From 8fe0fb95cb28cf26d0dd7fa1c88c524cf776e3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:08 +0000
Subject: [PATCH 24/91] fix: TextView::split_suffix_if used the offset of the
 delimiter as the size of the suffix

---
 code/include/swoc/TextView.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 61c8e6e..6125385 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1473,7 +1473,8 @@ TextView::split_suffix_at(std::string_view const &delimiters) -> self_type {
 template <typename F>
 TextView::self_type
 TextView::split_suffix_if(F const &pred) {
-  return this->split_suffix(this->rfind_if(pred));
+  auto idx = this->rfind_if(pred);
+  return npos == idx ? self_type{} : this->split_suffix(this->size() - (idx + 1));
 }
 
 inline TextView
-- 
2.43.0


From 20434c6b63f2fca1b88692d85f591d1ef57d6f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:08 +0000
Subject: [PATCH 25/91] fix: TextView::take_suffix and take_suffix_if returned
 the wrong text

---
 code/include/swoc/TextView.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 6125385..dde6c18 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1479,8 +1479,9 @@ TextView::split_suffix_if(F const &pred) {
 
 inline TextView
 TextView::take_suffix(size_t n) {
-  self_type zret{*this};
-  *this = zret.split_prefix(n);
+  n              = std::min(n, this->size());
+  self_type zret = this->suffix(n);
+  this->remove_suffix(std::min(n + 1, this->size()));
   return zret;
 }
 
@@ -1491,18 +1492,21 @@ TextView::take_suffix(int n) {
 
 inline TextView
 TextView::take_suffix_at(char c) {
-  return this->take_suffix(this->rfind(c));
+  auto idx = this->rfind(c);
+  return this->take_suffix(npos == idx ? npos : this->size() - (idx + 1));
 }
 
 inline TextView
 TextView::take_suffix_at(std::string_view const &delimiters) {
-  return this->take_suffix(this->find_last_of(delimiters));
+  auto idx = this->find_last_of(delimiters);
+  return this->take_suffix(npos == idx ? npos : this->size() - (idx + 1));
 }
 
 template <typename F>
 TextView::self_type
 TextView::take_suffix_if(F const &pred) {
-  return this->take_suffix_at(this->rfind_if(pred));
+  auto idx = this->rfind_if(pred);
+  return this->take_suffix(npos == idx ? npos : this->size() - (idx + 1));
 }
 
 template <typename F>
-- 
2.43.0


From e59cc2bab500913519528f70d8e00858f1824dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:08 +0000
Subject: [PATCH 26/91] fix: TextView::clip_suffix_of returned the wrong suffix
 and read before an empty view

---
 code/include/swoc/TextView.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index dde6c18..fec3fba 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1763,8 +1763,8 @@ TextView::clip_prefix_of(F const &pred) {
 template <typename F>
 TextView::self_type
 TextView::clip_suffix_of(F const &pred) {
-  size_t idx = this->size() - 1;
-  for (auto spot = this->data() + idx, limit = this->data(); spot >= limit && pred(*spot); --spot, --idx)
+  size_t idx = 0;
+  for (auto spot = this->data_end(), limit = this->data(); spot > limit && pred(*(spot - 1)); --spot, ++idx)
     ; // empty
   TextView token = this->suffix(idx);
   this->remove_suffix(idx);
-- 
2.43.0


From ef9b5e337bcd2d3fff9460cbf4d1619f738d6c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:08 +0000
Subject: [PATCH 27/91] fix: the digit 'T' was converted as 20 instead of 29

---
 code/src/TextView.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index fbfb343..3bd5110 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -27,9 +27,9 @@ const int8_t svtoi_convert[256] = {
   -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // 20
   0,  1,  2,  3,  4,  5,  6,  7,  8,  9,  -1, -1, -1, -1, -1, -1, // 30
   -1, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, // 40
-  25, 26, 27, 28, 20, 30, 31, 32, 33, 34, 35, -1, -1, -1, -1, -1, // 50
+  25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, -1, -1, -1, -1, -1, // 50
   -1, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, // 60
-  25, 26, 27, 28, 20, 30, 31, 32, 33, 34, 35, -1, -1, -1, -1, -1, // 70
+  25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, -1, -1, -1, -1, -1, // 70
   -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // 80
   -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // 90
   -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // A0
-- 
2.43.0


From 7c4bad4b4fbe96d21252269714814249538deedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:08 +0000
Subject: [PATCH 28/91] fix: svtoi left the parsed text unchanged if nothing
 was parsed

---
 code/src/TextView.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index 3bd5110..0cb1a4b 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -47,6 +47,10 @@ svtoi(TextView src, TextView *out, int base) {
   static constexpr uintmax_t ABS_MIN = uintmax_t(std::numeric_limits<intmax_t>::min());
   intmax_t zret = 0;
 
+  if (out) {
+    out->clear();
+  }
+
   if (src.ltrim_if(&isspace)) {
     TextView parsed;
     const char *start = src.data();
-- 
2.43.0


From 695dfbe72c2c781a48ed258c757c2f6d09b4d9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:08 +0000
Subject: [PATCH 29/91] fix: svtod dropped the sign of text without a fraction
 and of large values

---
 code/src/TextView.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index 0cb1a4b..9214036 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -172,6 +172,9 @@ svtod(swoc::TextView text, swoc::TextView *parsed) {
   };
 
   if (text.empty()) {
+    if (parsed) {
+      parsed->clear();
+    }
     return 0;
   }
 
@@ -191,11 +194,11 @@ svtod(swoc::TextView text, swoc::TextView *parsed) {
     ++text;
   }
   // Parse the leading whole part as an integer.
-  intmax_t whole = svto_radix<10>(text);
+  uintmax_t whole = svto_radix<10>(text);
   parsed->assign(org_text.data(), text.data());
 
   if (text.empty()) {
-    return whole;
+    return sign * double(whole);
   }
 
   double frac = 0.0;
-- 
2.43.0


From be5369c2a7070580b0ea9128fbdbe0eda2fb9aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:08 +0000
Subject: [PATCH 30/91] fix: memcmp, strcmp and strcasecmp of views put a
 prefix after the longer view

---
 code/src/string_view_util.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/src/string_view_util.cc b/code/src/string_view_util.cc
index 3c483ca..0740c31 100644
--- a/code/src/string_view_util.cc
+++ b/code/src/string_view_util.cc
@@ -14,16 +14,16 @@ memcmp(std::string_view const &lhs, std::string_view const &rhs) {
 
   // Seems a bit ugly but size comparisons must be done anyway to get the memcmp args.
   if (lhs.size() < rhs.size()) {
-    zret = 1;
+    zret = -1;
     n    = lhs.size();
   } else if (lhs.size() > rhs.size()) {
-    zret = -1;
+    zret = 1;
   } else if (lhs.data() == rhs.data()) { // same memory, obviously equal.
     return 0;
   }
 
   int r = ::memcmp(lhs.data(), rhs.data(), n);
-  return r ? r : zret;
+  return r < 0 ? -1 : r > 0 ? 1 : zret;
 }
 
 int
@@ -33,15 +33,15 @@ strcasecmp(const std::string_view &lhs, const std::string_view &rhs) {
 
   // Seems a bit ugly but size comparisons must be done anyway to get the @c strncasecmp args.
   if (lhs.size() < rhs.size()) {
-    zret = 1;
+    zret = -1;
     n    = lhs.size();
   } else if (lhs.size() > rhs.size()) {
-    zret = -1;
+    zret = 1;
   } else if (lhs.data() == rhs.data()) { // the same memory, obviously equal.
     return 0;
   }
 
   int r = ::strncasecmp(lhs.data(), rhs.data(), n);
 
-  return r ? r : zret;
+  return r < 0 ? -1 : r > 0 ? 1 : zret;
 }
-- 
2.43.0


From 383818fa25a18ddbb09fde94daa9ee0adfce37f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:51 +0000
Subject: [PATCH 31/91] fix: svtod was wrong for large integers and exponents
 and inexact for others

---
 code/src/TextView.cc | 56 +++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 29 deletions(-)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index 9214036..619bcce 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -151,14 +151,12 @@ svtou(TextView src, TextView *out, int base) {
 
 double
 svtod(swoc::TextView text, swoc::TextView *parsed) {
+  // Computed with extended precision so that rounding of intermediate values doesn't accumulate.
+  using real = long double;
   // @return 10^e
-  auto pow10 = [](int e) -> double {
-    double zret  = 1.0;
-    double scale = 10.0;
-    if (e < 0) { // flip the scale and make @a e positive.
-      e     = -e;
-      scale = 0.1;
-    }
+  auto pow10 = [](uintmax_t e) -> real {
+    real zret  = 1.0;
+    real scale = 10.0;
 
     // Walk the bits in the exponent @a e and multiply the scale for set bits.
     while (e) {
@@ -171,19 +169,13 @@ svtod(swoc::TextView text, swoc::TextView *parsed) {
     return zret;
   };
 
-  if (text.empty()) {
-    if (parsed) {
-      parsed->clear();
-    }
-    return 0;
-  }
-
   auto org_text = text; // save this to update @a parsed.
   // Check just once and dump to a local copy if needed.
   TextView local_parsed;
   if (!parsed) {
     parsed = &local_parsed;
   }
+  parsed->clear();
 
   // Handle leading sign.
   int sign = 1;
@@ -193,42 +185,48 @@ svtod(swoc::TextView text, swoc::TextView *parsed) {
   } else if (*text == '+') {
     ++text;
   }
-  // Parse the leading whole part as an integer.
-  uintmax_t whole = svto_radix<10>(text);
-  parsed->assign(org_text.data(), text.data());
 
-  if (text.empty()) {
-    return sign * double(whole);
+  // Parse the leading whole part.
+  bool digits_p = false;
+  real value    = 0.0;
+  while (text && isdigit(*text)) {
+    value    = value * 10 + (*text++ - '0');
+    digits_p = true;
   }
 
-  double frac = 0.0;
   if (*text == '.') { // fractional part.
     ++text;
-    double scale = 0.1;
+    real scale = 1.0;
     while (text && isdigit(*text)) {
-      frac  += scale * (*text++ - '0');
-      scale /= 10.0;
+      scale    *= 10;
+      value    += (*text++ - '0') / scale;
+      digits_p  = true;
     }
   }
 
-  double exp = 1.0;
+  if (!digits_p) { // not a number.
+    return 0;
+  }
+
   if (text.starts_with_nocase("e")) {
-    int exp_sign = 1;
+    bool neg = false;
     ++text;
     if (text) {
       if (*text == '+') {
         ++text;
       } else if (*text == '-') {
         ++text;
-        exp_sign = -1;
+        neg = true;
       }
     }
-    auto exp_part = svto_radix<10>(text);
-    exp           = pow10(exp_part * exp_sign);
+    auto exp = svto_radix<10>(text);
+    if (value != 0) { // avoid zero times infinity.
+      value = neg ? value / pow10(exp) : value * pow10(exp);
+    }
   }
 
   parsed->assign(org_text.data(), text.data());
-  return sign * (whole + frac) * exp;
+  return sign * value;
 }
 
 // Do the template instantiations.
-- 
2.43.0


From a3b14861c596ce352abac963bcfd4def4033f64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:39 +0000
Subject: [PATCH 32/91] fix: TransformView::end() must not treat the limit as a
 C string.

---
 code/include/swoc/TextView.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index fec3fba..bcb65c0 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1873,7 +1873,7 @@ protected:
   source_iterator _limit; ///< End of source view.
 
   /// Special constructor for making an empty instance to serve as the @c end iterator.
-  TransformView(transform_type &&xf, source_iterator &&limit) : _xf(xf), _spot(limit), _limit(limit) {}
+  TransformView(transform_type const &xf, source_iterator const &limit) : _xf(xf), _spot(limit), _limit(limit) {}
 };
 
 template <typename X, typename V>
@@ -2006,7 +2006,7 @@ protected:
   source_iterator _limit; ///< End marker.
 
   /// Special constructor for making an empty instance to serve as the @c end iterator.
-  explicit TransformView(source_iterator &&limit) : _spot(limit), _limit(limit) {}
+  explicit TransformView(source_iterator const &limit) : _spot(limit), _limit(limit) {}
 };
 
 template <typename V>
-- 
2.43.0


From a6d220c7b56c878ffb4d07504ab7487c24eeedbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:39 +0000
Subject: [PATCH 33/91] fix: Compare views without regard to case past a nul
 character.

---
 code/include/swoc/TextView.h |  4 ++--
 code/src/string_view_util.cc | 13 ++++++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index bcb65c0..869758d 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1685,7 +1685,7 @@ TextView::starts_with_nocase(char c) const noexcept {
 
 inline bool
 TextView::starts_with_nocase(std::string_view const &prefix) const noexcept {
-  return this->size() >= prefix.size() && 0 == ::strncasecmp(this->data(), prefix.data(), prefix.size());
+  return this->size() >= prefix.size() && 0 == strcasecmp(this->prefix(prefix.size()), prefix);
 }
 
 inline bool
@@ -1695,7 +1695,7 @@ TextView::ends_with(std::string_view const &suffix) const noexcept {
 
 inline bool
 TextView::ends_with_nocase(std::string_view const &suffix) const noexcept {
-  return this->size() >= suffix.size() && 0 == ::strncasecmp(this->data_end() - suffix.size(), suffix.data(), suffix.size());
+  return this->size() >= suffix.size() && 0 == strcasecmp(this->suffix(suffix.size()), suffix);
 }
 
 inline bool
diff --git a/code/src/string_view_util.cc b/code/src/string_view_util.cc
index 0740c31..78cc588 100644
--- a/code/src/string_view_util.cc
+++ b/code/src/string_view_util.cc
@@ -6,6 +6,7 @@
 */
 
 #include "swoc/string_view_util.h"
+#include <cctype>
 
 int
 memcmp(std::string_view const &lhs, std::string_view const &rhs) {
@@ -31,7 +32,7 @@ strcasecmp(const std::string_view &lhs, const std::string_view &rhs) {
   int zret = 0;
   size_t n = rhs.size();
 
-  // Seems a bit ugly but size comparisons must be done anyway to get the @c strncasecmp args.
+  // Seems a bit ugly but size comparisons must be done anyway to get the common size.
   if (lhs.size() < rhs.size()) {
     zret = -1;
     n    = lhs.size();
@@ -41,7 +42,13 @@ strcasecmp(const std::string_view &lhs, const std::string_view &rhs) {
     return 0;
   }
 
-  int r = ::strncasecmp(lhs.data(), rhs.data(), n);
+  // Can't use @c strncasecmp because that stops at a nul character, which can be in a view.
+  for (size_t i = 0; i < n; ++i) {
+    int r = ::tolower(static_cast<unsigned char>(lhs[i])) - ::tolower(static_cast<unsigned char>(rhs[i]));
+    if (r) {
+      return r < 0 ? -1 : 1;
+    }
+  }
 
-  return r < 0 ? -1 : r > 0 ? 1 : zret;
+  return zret;
 }
-- 
2.43.0


From 370fa0512d17104bc252e228a4f1f633480ed13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:23 +0000
Subject: [PATCH 34/91] fix: FixedBufferWriter::copy must stay inside the
 buffer and copy only the bytes requested.

---
 code/include/swoc/BufferWriter.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/BufferWriter.h b/code/include/swoc/BufferWriter.h
index 154da37..e9256d6 100644
--- a/code/include/swoc/BufferWriter.h
+++ b/code/include/swoc/BufferWriter.h
@@ -626,9 +626,9 @@ FixedBufferWriter::clear() -> self_type & {
 inline auto
 FixedBufferWriter::copy(size_t dst, size_t src, size_t n) -> self_type & {
   auto limit = std::min<size_t>(_capacity, _attempted); // max offset of region possible.
-  MemSpan<char> src_span{_buffer + src, std::min(limit, src + n)};
-  MemSpan<char> dst_span{_buffer + dst, std::min(limit, dst + n)};
-  std::memmove(dst_span.data(), src_span.data(), std::min(dst_span.size(), src_span.size()));
+  if (src < limit && dst < limit) {
+    std::memmove(_buffer + dst, _buffer + src, std::min(n, limit - std::max(src, dst)));
+  }
   return *this;
 }
 
-- 
2.43.0


From b75bd8027e236498cbb676676e412e6fa7848e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:23 +0000
Subject: [PATCH 35/91] fix: FixedBufferWriter::aux_data() is null if there is
 no remaining capacity, as documented.

---
 code/include/swoc/BufferWriter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/BufferWriter.h b/code/include/swoc/BufferWriter.h
index e9256d6..13d20bf 100644
--- a/code/include/swoc/BufferWriter.h
+++ b/code/include/swoc/BufferWriter.h
@@ -574,7 +574,7 @@ FixedBufferWriter::error() const {
 
 inline char *
 FixedBufferWriter::aux_data() {
-  return error() ? nullptr : _buffer + _attempted;
+  return _attempted < _capacity ? _buffer + _attempted : nullptr;
 }
 
 inline bool
-- 
2.43.0


From 0fef9d831d028b2cade402eef496138d3e503011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 36/91] fix: format specifier parsing indexed its table with a
 negative character

---
 code/include/swoc/bwf_base.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/code/include/swoc/bwf_base.h b/code/include/swoc/bwf_base.h
index d5c426d..35ab202 100644
--- a/code/include/swoc/bwf_base.h
+++ b/code/include/swoc/bwf_base.h
@@ -474,37 +474,37 @@ extern ExternalNames Global_Names;
 
 inline Spec::Align
 Spec::align_of(char c) {
-  return static_cast<Align>(_prop._data[static_cast<unsigned>(c)] & Property::ALIGN_MASK);
+  return static_cast<Align>(_prop._data[static_cast<unsigned char>(c)] & Property::ALIGN_MASK);
 }
 
 inline bool
 Spec::is_sign(char c) {
-  return _prop._data[static_cast<unsigned>(c)] & Property::SIGN_CHAR;
+  return _prop._data[static_cast<unsigned char>(c)] & Property::SIGN_CHAR;
 }
 
 inline bool
 Spec::is_type(char c) {
-  return _prop._data[static_cast<unsigned>(c)] & Property::TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(c)] & Property::TYPE_CHAR;
 }
 
 inline bool
 Spec::is_upper_case_type(char c) {
-  return _prop._data[static_cast<unsigned>(c)] & Property::UPPER_TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(c)] & Property::UPPER_TYPE_CHAR;
 }
 
 inline bool
 Spec::is_numeric_type(char c) {
-  return _prop._data[static_cast<unsigned>(c)] & Property::NUMERIC_TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(c)] & Property::NUMERIC_TYPE_CHAR;
 }
 
 inline bool
 Spec::has_numeric_type() const {
-  return _prop._data[static_cast<unsigned>(_type)] & Property::NUMERIC_TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(_type)] & Property::NUMERIC_TYPE_CHAR;
 }
 
 inline bool
 Spec::has_upper_case_type() const {
-  return _prop._data[static_cast<unsigned>(_type)] & Property::UPPER_TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(_type)] & Property::UPPER_TYPE_CHAR;
 }
 
 inline bool
-- 
2.43.0


From 7a950dff57f6ade4574a39fdfbfee6fd13d6e231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 37/91] fix: formatting the minimum value of a signed integer
 type overflowed

---
 code/include/swoc/bwf_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/bwf_base.h b/code/include/swoc/bwf_base.h
index 35ab202..50f922d 100644
--- a/code/include/swoc/bwf_base.h
+++ b/code/include/swoc/bwf_base.h
@@ -1104,7 +1104,7 @@ bwformat(BufferWriter &w, bwf::Spec const &spec, I &&i) ->
   bool neg_p  = false;
   uintmax_t n = static_cast<uintmax_t>(i);
   if (i < 0) {
-    n     = static_cast<uintmax_t>(-i);
+    n     = 0 - n; // avoid overflow on the minimum value.
     neg_p = true;
   }
   return bwf::Format_Integer(w, spec, n, neg_p);
-- 
2.43.0


From 4f7b4ec244ef84970a9fe14ced27551799ec1667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 38/91] fix: a format field with a minimum width larger than
 the maximum was not clipped

---
 code/src/bw_format.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 60ceacc..c9fead3 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -298,11 +298,12 @@ Adjust_Alignment(BufferWriter &aux, Spec const &spec) {
       aux.write(spec._fill);
     }
 
-  } else {
-    size_t max = spec._max;
-    if (max < extent) {
-      aux.discard(extent - max);
-    }
+  }
+  // Always clip, the minimum width can be larger than the maximum width.
+  extent     = aux.extent();
+  size_t max = spec._max;
+  if (max < extent) {
+    aux.discard(extent - max);
   }
 }
 
-- 
2.43.0


From 0037ffeefdc4662d014e6a4e56589a3eb9c00c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 39/91] fix: a format field without content was not filled to
 the minimum width

---
 code/include/swoc/bwf_base.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/code/include/swoc/bwf_base.h b/code/include/swoc/bwf_base.h
index 50f922d..66db580 100644
--- a/code/include/swoc/bwf_base.h
+++ b/code/include/swoc/bwf_base.h
@@ -903,11 +903,9 @@ BufferWriter::print_nfv(Binding &&names, Extractor &&ex, bwf::ArgPack const &arg
         } else if (spec._name.size()) {
           names(lw, spec);
         }
-        if (lw.extent()) {
-          bwf::Adjust_Alignment(lw, spec);
-          if (!this->commit(lw.extent())) {
-            continue;
-          }
+        bwf::Adjust_Alignment(lw, spec);
+        if (lw.extent() && !this->commit(lw.extent())) {
+          continue;
         }
         break;
       }
-- 
2.43.0


From 16767574c9856c1e515f0455a2ed8efde32ae72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 40/91] fix: a large argument index in a format specifier
 wrapped

---
 code/src/bw_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index c9fead3..5c6ccc4 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -75,7 +75,7 @@ Spec::parse(TextView fmt) {
   num    = _name;
   auto n = svto_radix<10>(num);
   if (num.empty()) {
-    _idx = static_cast<decltype(_idx)>(n);
+    _idx = static_cast<decltype(_idx)>(std::min<uintmax_t>(n, std::numeric_limits<decltype(_idx)>::max()));
   }
 
   if (fmt.size()) {
-- 
2.43.0


From 48e22cbf05e58e24d4d110a0044770695cbe9369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 41/91] fix: formatting a negative infinity lost the sign

---
 code/src/bw_format.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 5c6ccc4..2017022 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -523,7 +523,15 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
       unnormal = unknown_bwf;
     }
 
-    w.write(unnormal);
+    char sign = 0;
+    if (negative_p && spec._sign != Spec::SIGN_NEVER) {
+      sign = '-';
+    } else if (!negative_p && spec._sign == Spec::SIGN_ALWAYS) {
+      sign = spec._sign;
+    }
+    Write_Aligned(
+      w, [&]() { w.write(unnormal); }, spec._align, static_cast<int>(spec._min) - static_cast<int>(unnormal.size() + (sign ? 1 : 0)),
+      spec._fill, sign);
     return w;
   }
 
-- 
2.43.0


From 326c86c41ec6551f72cedd9c6c68f8913f780560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 42/91] fix: floating point formatting used a space as the sign
 for the "never" sign style

---
 code/src/bw_format.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 2017022..b84e67d 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -552,10 +552,12 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
 
   frac = f - whole_part; // split the number
 
-  if (negative_p) {
-    neg = '-';
-  } else if (spec._sign != '-') {
-    neg = spec._sign;
+  if (spec._sign != Spec::SIGN_NEVER) {
+    if (negative_p) {
+      neg = '-';
+    } else if (spec._sign == Spec::SIGN_ALWAYS) {
+      neg = spec._sign;
+    }
   }
 
   // Shift the floating point based on the precision. Used to convert
-- 
2.43.0


From 12480ce6af68aa171a9a223661146ac718cd1c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 43/91] fix: floating point formatting dropped leading zeros of
 the fraction

---
 code/src/bw_format.cc | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index b84e67d..a1b2221 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -543,9 +543,7 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
   static constexpr char dec = '.';
   double frac               = NAN;
   size_t l                  = 0;
-  size_t r                  = 0;
   char whole[std::numeric_limits<double>::digits10 + 1];
-  char fraction[std::numeric_limits<double>::digits10 + 1];
   char neg               = 0;
   int width              = static_cast<int>(spec._min);                          // amount left to fill.
   unsigned int precision = (spec._prec == Spec::DEFAULT._prec) ? 2 : spec._prec; // default precision 2
@@ -562,20 +560,31 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
 
   // Shift the floating point based on the precision. Used to convert
   //  trailing fraction into an integer value.
-  uint64_t shift = 0;
-  if (precision < POWERS_OF_TEN.size()) {
-    shift = POWERS_OF_TEN[precision];
+  // Limited to the decimal digits in a double, past that only zeros are written.
+  unsigned int const n_digits = std::min<unsigned int>(precision, std::numeric_limits<double>::digits10);
+  uint64_t shift              = 0;
+  if (n_digits < POWERS_OF_TEN.size()) {
+    shift = POWERS_OF_TEN[n_digits];
   } else { // not precomputed.
     shift = POWERS_OF_TEN.back();
-    for (precision -= (POWERS_OF_TEN.size() - 1); precision > 0; --precision) {
+    for (auto n = n_digits - (POWERS_OF_TEN.size() - 1); n > 0; --n) {
       shift *= 10;
     }
   }
 
   auto frac_part = static_cast<uint64_t>(frac * shift + 0.5 /* rounding */);
+  if (frac_part >= shift) { // rounded up to the next integer.
+    ++whole_part;
+    frac_part -= shift;
+  }
 
   l = bwf::To_Radix<10>(whole_part, whole, sizeof(whole), bwf::LOWER_DIGITS);
-  r = bwf::To_Radix<10>(frac_part, fraction, sizeof(fraction), bwf::LOWER_DIGITS);
+  // Leading zeros in the fraction are significant.
+  char fraction[std::numeric_limits<double>::digits10];
+  for (unsigned int idx = n_digits; idx > 0; --idx) {
+    fraction[idx - 1]  = bwf::LOWER_DIGITS[frac_part % 10];
+    frac_part         /= 10;
+  }
 
   // Clip fill width
   if (neg) {
@@ -583,10 +592,10 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
   }
   width -= static_cast<int>(l);
   --width; // '.'
-  width -= static_cast<int>(r);
+  width -= static_cast<int>(precision);
 
   std::string_view whole_digits{whole + sizeof(whole) - l, l};
-  std::string_view frac_digits{fraction + sizeof(fraction) - r, r};
+  std::string_view frac_digits{fraction, n_digits};
 
   Write_Aligned(
     w,
@@ -594,6 +603,9 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
       w.write(whole_digits);
       w.write(dec);
       w.write(frac_digits);
+      for (auto n = precision - n_digits; n > 0; --n) {
+        w.write('0');
+      }
     },
     spec._align, width, spec._fill, neg);
 
-- 
2.43.0


From a225d464f09e49c7e7aa445f529c2e6069335d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 44/91] fix: floating point values of 2^64 or more were
 formatted as an unrelated integer

---
 code/src/bw_format.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index a1b2221..d129689 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -535,6 +535,18 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
     return w;
   }
 
+  if (f >= 18446744073709551616.0) { // too large for an integer, and therefore has no fraction.
+    char digits[std::numeric_limits<double>::max_exponent10 + 2];
+    int n    = snprintf(digits, sizeof(digits), "%.0f", f);
+    char neg = 0;
+    if (spec._sign != Spec::SIGN_NEVER && (negative_p || spec._sign == Spec::SIGN_ALWAYS)) {
+      neg = negative_p ? '-' : spec._sign;
+    }
+    Write_Aligned(
+      w, [&]() { w.write(digits, n); }, spec._align, static_cast<int>(spec._min) - n - (neg ? 1 : 0), spec._fill, neg);
+    return w;
+  }
+
   auto whole_part = static_cast<uint64_t>(f);
   if (whole_part == f || spec._prec == 0) { // integral
     return Format_Integer(w, spec, whole_part, negative_p);
-- 
2.43.0


From f9eb6a2030b99c7be463a1d839b711a1084e06fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 45/91] fix: short name of E2BIG had a trailing space

---
 code/src/bw_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index d129689..1261592 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -784,7 +784,7 @@ static const std::array<std::string_view, 134> ERRNO_SHORT_NAME = {
    "SUCCESS", "EPERM",
    "ENOENT", "ESRCH",
    "EINTR", "EIO",
-   "ENXIO", "E2BIG ",
+   "ENXIO", "E2BIG",
    "ENOEXEC", "EBADF",
    "ECHILD", "EAGAIN",
    "ENOMEM", "EACCES",
-- 
2.43.0


From d61ff8b1838e899df900de99168528e43a27ca4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 46/91] fix: MemSpan<T>::rebind to void multiplied the size in
 bytes by the size of the element

---
 code/include/swoc/MemSpan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index 02c170c..dbb6c8a 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -935,7 +935,7 @@ template <typename T> struct is_span_compatible<T, void> {
 template <typename T>
 size_t
 is_span_compatible<T, void>::count(size_t size) {
-  return sizeof(T) * size;
+  return size; // already in bytes.
 }
 
 template <typename T> struct is_span_compatible<T, void const> {
@@ -946,7 +946,7 @@ template <typename T> struct is_span_compatible<T, void const> {
 template <typename T>
 size_t
 is_span_compatible<T, void const>::count(size_t size) {
-  return sizeof(T) * size;
+  return size; // already in bytes.
 }
 /// @endcond
 
-- 
2.43.0


From 5160df610a2212f941dec6400983a19d084c40ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 47/91] fix: short name of EL2HLT was misspelled

---
 code/src/bw_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 1261592..584bd49 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -806,7 +806,7 @@ static const std::array<std::string_view, 134> ERRNO_SHORT_NAME = {
    "ECHRNG", "EL2NSYNC",
    "EL3HLT", "EL3RST",
    "ELNRNG", "EUNATCH",
-   "ENOCSI", "EL2HTL",
+   "ENOCSI", "EL2HLT",
    "EBADE", "EBADR",
    "EXFULL", "ENOANO",
    "EBADRQC", "EBADSLT",
-- 
2.43.0


From c6574ba022b06553c9b315930a8fabd4e6981368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 48/91] fix: fill of a right aligned hex dump was put inside
 the radix lead

---
 code/src/bw_format.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 584bd49..1ec3abd 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -735,13 +735,23 @@ bwformat(BufferWriter &w, bwf::Spec const &spec, bwf::HexDump const &hex) {
   }
 
   int width = int(spec._min) - hex._view.size() * 2; // amount left to fill.
-  if (spec._radix_lead_p) {
-    w.write('0');
-    w.write(fmt_type);
+  bool lead_p = spec._radix_lead_p;
+  if (lead_p) {
     width -= 2;
+    if (spec._align == bwf::Spec::Align::SIGN) { // fill goes between the radix lead and the digits.
+      w.write('0').write(fmt_type);
+      lead_p = false;
+    }
   }
   bwf::Write_Aligned(
-    w, [&w, &hex, digits]() { bwf::Format_As_Hex(w, hex._view, digits); }, spec._align, width, spec._fill, 0);
+    w,
+    [&]() {
+      if (lead_p) {
+        w.write('0').write(fmt_type);
+      }
+      bwf::Format_As_Hex(w, hex._view, digits);
+    },
+    spec._align, width, spec._fill, 0);
   return w;
 }
 
-- 
2.43.0


From 18a01f9860be585de175ff92776b2514e4a4c304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:36 +0000
Subject: [PATCH 49/91] fix: IntrusiveDList erase of a range did not compile,
 did not update the count and failed on an empty range

---
 code/include/swoc/IntrusiveDList.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/code/include/swoc/IntrusiveDList.h b/code/include/swoc/IntrusiveDList.h
index 2b5b0a2..c5e0eb8 100644
--- a/code/include/swoc/IntrusiveDList.h
+++ b/code/include/swoc/IntrusiveDList.h
@@ -924,28 +924,33 @@ IntrusiveDList<L>::erase(const iterator &loc) -> iterator {
 template <typename L>
 auto
 IntrusiveDList<L>::erase(const iterator &first, const iterator &limit) -> iterator {
-  value_type *spot = first;
+  value_type *spot = first._v;
+  value_type *stop = limit._v;
+  if (spot == stop) {
+    return this->iterator_for(stop); // empty range, nothing to remove.
+  }
   value_type *prev{L::prev_ptr(spot)};
   if (prev) {
-    L::next_ptr(prev) = limit;
+    L::next_ptr(prev) = stop;
   }
   if (spot == _head) {
-    _head = limit;
+    _head = stop;
   }
   // tail is only updated if @a limit is @a end (e.g., @c nullptr).
-  if (nullptr == limit) {
+  if (nullptr == stop) {
     _tail = prev;
   } else {
-    L::prev_ptr(limit) = prev;
+    L::prev_ptr(stop) = prev;
   }
   // Clear links in removed elements.
-  while (spot != limit) {
+  while (spot != stop) {
     value_type *target{spot};
     spot                = L::next_ptr(spot);
     L::prev_ptr(target) = L::next_ptr(target) = nullptr;
+    --_count;
   };
 
-  return {limit._v, this};
+  return this->iterator_for(stop);
 }
 
 template <typename L>
-- 
2.43.0


From 2a55299d906d471d675a79d344acce6c1e04ac6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:36 +0000
Subject: [PATCH 50/91] fix: the methods of IntrusiveLinkDescriptor were not
 defined

---
 code/include/swoc/IntrusiveDList.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/code/include/swoc/IntrusiveDList.h b/code/include/swoc/IntrusiveDList.h
index c5e0eb8..dea3a74 100644
--- a/code/include/swoc/IntrusiveDList.h
+++ b/code/include/swoc/IntrusiveDList.h
@@ -562,6 +562,18 @@ template <typename T, IntrusiveLinks<T>(T::*links)> struct IntrusiveLinkDescript
   static T *&prev_ptr(T *thing); ///< Retrive reference to previous pointer.
 };
 
+template <typename T, IntrusiveLinks<T>(T::*links)>
+T *&
+IntrusiveLinkDescriptor<T, links>::next_ptr(T *thing) {
+  return (thing->*links)._next;
+}
+
+template <typename T, IntrusiveLinks<T>(T::*links)>
+T *&
+IntrusiveLinkDescriptor<T, links>::prev_ptr(T *thing) {
+  return (thing->*links)._prev;
+}
+
 // --- Implementation ---
 
 template <typename L> IntrusiveDList<L>::const_iterator::const_iterator() {}
-- 
2.43.0


From df94c06e294941354e8dfafa7b950c494f40a2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:36 +0000
Subject: [PATCH 51/91] fix: IntrusiveHashMap erase did not update the bucket
 count unless the element was first in the bucket

---
 code/include/swoc/IntrusiveHashMap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/include/swoc/IntrusiveHashMap.h b/code/include/swoc/IntrusiveHashMap.h
index 4bbe3b6..231788b 100644
--- a/code/include/swoc/IntrusiveHashMap.h
+++ b/code/include/swoc/IntrusiveHashMap.h
@@ -555,6 +555,8 @@ IntrusiveHashMap<H>::erase(iterator const &loc) -> iterator {
       b->_v = nv;
       --b->_count;
     }
+  } else {
+    --b->_count;
   }
   _list.erase(loc);
   return zret;
-- 
2.43.0


From cd2bb36a59c4429cef991d29931a972419179c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:36 +0000
Subject: [PATCH 52/91] fix: IntrusiveHashMap erase of a range did not compile
 and left the buckets inconsistent

---
 code/include/swoc/IntrusiveHashMap.h | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/code/include/swoc/IntrusiveHashMap.h b/code/include/swoc/IntrusiveHashMap.h
index 231788b..38500f8 100644
--- a/code/include/swoc/IntrusiveHashMap.h
+++ b/code/include/swoc/IntrusiveHashMap.h
@@ -577,21 +577,10 @@ template <typename H>
 auto
 IntrusiveHashMap<H>::erase(iterator const &start, iterator const &limit) -> iterator {
   auto spot{start};
-  Bucket *bucket{this->bucket_for(spot)};
   while (spot != limit) {
-    auto target         = bucket;
-    bucket              = bucket->_link._next; // bump now to avoid forward iteration problems in case of bucket removal.
-    value_type *v_limit = bucket ? bucket->_v : nullptr;
-    while (spot != v_limit && spot != limit) {
-      --(target->_count);
-      ++spot;
-    }
-    if (target->_count == 0) {
-      _active_buckets.erase(target);
-    }
+    spot = this->erase(spot);
   }
-  _list.erase(start, limit);
-  return _list.iterator_for(limit); // convert from const_iterator back to iterator
+  return spot;
 };
 
 template <typename H>
-- 
2.43.0


From 474357827a45860973bca7ae11529f25230e5998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:36 +0000
Subject: [PATCH 53/91] fix: IntrusiveHashMap const_range could not be
 constructed from a range

---
 code/include/swoc/IntrusiveHashMap.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/include/swoc/IntrusiveHashMap.h b/code/include/swoc/IntrusiveHashMap.h
index 38500f8..6c419dd 100644
--- a/code/include/swoc/IntrusiveHashMap.h
+++ b/code/include/swoc/IntrusiveHashMap.h
@@ -355,6 +355,9 @@ IntrusiveHashMap<H>::Bucket::contains(value_type *v) const {
 }
 
 // ---------------------
+template <typename H>
+IntrusiveHashMap<H>::const_range::const_range(range const &r) : super_type(r.first, r.second) {}
+
 template <typename H>
 auto
 IntrusiveHashMap<H>::range::begin() const -> iterator const & {
-- 
2.43.0


From 08223f6c8bd36063580debc42a9ec1543bdbd46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:36 +0000
Subject: [PATCH 54/91] fix: an IntrusiveHashMap without buckets divided by
 zero

---
 code/include/swoc/IntrusiveHashMap.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/include/swoc/IntrusiveHashMap.h b/code/include/swoc/IntrusiveHashMap.h
index 6c419dd..e0f98a5 100644
--- a/code/include/swoc/IntrusiveHashMap.h
+++ b/code/include/swoc/IntrusiveHashMap.h
@@ -393,6 +393,9 @@ template <typename H> IntrusiveHashMap<H>::IntrusiveHashMap(size_t n) {
 template <typename H>
 auto
 IntrusiveHashMap<H>::bucket_for(key_type key) -> Bucket * {
+  if (_table.empty()) { // constructed without buckets, or moved from.
+    _table.resize(PRIME[0]);
+  }
   return &_table[H::hash_of(key) % _table.size()];
 }
 
-- 
2.43.0


From 5e3b3264d8789d3f22e76bb8ab35b6371ecafcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:01 +0000
Subject: [PATCH 55/91] fix: Lexicon iterators could not be decremented

---
 code/include/swoc/Lexicon.h | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/code/include/swoc/Lexicon.h b/code/include/swoc/Lexicon.h
index c574bc7..2649f64 100644
--- a/code/include/swoc/Lexicon.h
+++ b/code/include/swoc/Lexicon.h
@@ -275,9 +275,10 @@ protected:
     bool operator!=(self_type const &that) const;
 
   protected:
-    explicit base_iterator(Item const *item) : _item(item) {}
+    base_iterator(Lexicon const *lexicon, Item const *item) : _lexicon(lexicon), _item(item) {}
 
-    const Item *_item{nullptr}; ///< Current location in the container.
+    const Lexicon *_lexicon{nullptr}; ///< Container, needed to decrement from the end.
+    const Item *_item{nullptr};       ///< Current location in the container.
   };
 
 public:
@@ -318,7 +319,7 @@ public:
     self_type operator--(int);
 
   protected:
-    value_iterator(const Item *item) : super_type(item){}; ///< Internal constructor.
+    value_iterator(const Lexicon *lexicon, const Item *item) : super_type(lexicon, item){}; ///< Internal constructor.
 
     friend Lexicon;
   };
@@ -354,7 +355,7 @@ public:
     self_type operator--(int);
 
   protected:
-    name_iterator(const Item *item) : super_type(item){}; ///< Internal constructor.
+    name_iterator(const Lexicon *lexicon, const Item *item) : super_type(lexicon, item){}; ///< Internal constructor.
 
     friend Lexicon;
   };
@@ -374,12 +375,12 @@ public:
   /// Iteration over names - every value/name pair.
   name_iterator
   begin_names() const {
-    return {_by_name.begin()};
+    return {this, _by_name.begin()};
   }
   /// Iteration over names - every value/name pair.
   name_iterator
   end_names() const {
-    return {_by_name.end()};
+    return {this, _by_name.end()};
   }
 
   /// @cond INTERNAL
@@ -717,13 +718,13 @@ Lexicon<E>::count() const {
 template <typename E>
 auto
 Lexicon<E>::begin() const -> const_iterator {
-  return const_iterator{static_cast<const Item *>(_by_value.begin())};
+  return const_iterator{this, static_cast<const Item *>(_by_value.begin())};
 }
 
 template <typename E>
 auto
 Lexicon<E>::end() const -> const_iterator {
-  return {};
+  return const_iterator{this, nullptr};
 }
 
 // Iterators
@@ -770,15 +771,19 @@ Lexicon<E>::value_iterator::operator++(int) -> self_type {
 template <typename E>
 auto
 Lexicon<E>::value_iterator::operator--() -> self_type & {
-  super_type::_item = super_type::_item->_value_link->_prev;
+  if (super_type::_item) {
+    super_type::_item = super_type::_item->_value_link._prev;
+  } else {
+    super_type::_item = --(super_type::_lexicon->_by_value.end());
+  }
   return *this;
 }
 
 template <typename E>
 auto
 Lexicon<E>::value_iterator::operator--(int) -> self_type {
-  self_type tmp;
-  ++*this;
+  self_type tmp{*this};
+  --*this;
   return tmp;
 }
 
@@ -800,15 +805,19 @@ Lexicon<E>::name_iterator::operator++(int) -> self_type {
 template <typename E>
 auto
 Lexicon<E>::name_iterator::operator--() -> self_type & {
-  super_type::_item = super_type::_item->_name_link->_prev;
+  if (super_type::_item) {
+    super_type::_item = super_type::_item->_name_link._prev;
+  } else {
+    super_type::_item = --(super_type::_lexicon->_by_name.end());
+  }
   return *this;
 }
 
 template <typename E>
 auto
 Lexicon<E>::name_iterator::operator--(int) -> self_type {
-  self_type tmp;
-  ++*this;
+  self_type tmp{*this};
+  --*this;
   return tmp;
 }
 
-- 
2.43.0


From 03c2968524e9af58400a859f6ef1824e3b92ae51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 56/91] fix: Scalar rounding of negative values went towards
 zero, not up or down

---
 code/include/swoc/Scalar.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index 339daf3..fcd84bd 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -47,11 +47,11 @@ scale_conversion_round_up(C c) {
   if constexpr (N == S) {
     return c;
   } else if constexpr (R::den == 1) {
-    return c / R::num + (0 != c % R::num); // N is a multiple of S.
+    return c / R::num + (c % R::num > 0); // N is a multiple of S.
   } else if constexpr (R::num == 1) {
     return c * R::den; // S is a multiple of N.
   }
-  return (c / R::num) * R::den + ((c % R::num) * R::den) / R::num + (0 != (c % R::num));
+  return (c / R::num) * R::den + ((c % R::num) * R::den) / R::num + (c % R::num > 0);
 }
 
 // Convert a count @a c that is scale @a S to scale @c N
@@ -62,11 +62,11 @@ scale_conversion_round_down(C c) {
   if constexpr (N == S) {
     return c;
   } else if constexpr (R::den == 1) {
-    return c / R::num; // N = k S
+    return c / R::num - (c % R::num < 0); // N = k S
   } else if constexpr (R::num == 1) {
     return c * R::den; // S = k N
   }
-  return (c / R::num) * R::den + ((c % R::num) * R::den) / R::num;
+  return (c / R::num) * R::den + ((c % R::num) * R::den) / R::num - (c % R::num < 0);
 }
 
 /* Helper classes for @c Scalar
@@ -104,7 +104,7 @@ template <typename C> struct scalar_unit_round_up_t {
   template <intmax_t N, typename I>
   constexpr I
   scale() const {
-    return static_cast<I>(_n / N + (0 != (_n % N)));
+    return static_cast<I>(_n / N + (_n % N > 0));
   }
 };
 
@@ -115,7 +115,7 @@ template <typename C> struct scalar_unit_round_down_t {
   template <intmax_t N, typename I>
   constexpr I
   scale() const {
-    return static_cast<I>(_n / N);
+    return static_cast<I>(_n / N - (_n % N < 0));
   }
 };
 
-- 
2.43.0


From 2e9e1b083e74b68ea227f00bb0489ef3b3ff773b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 57/91] fix: Scalar plus and minus did not compile

---
 code/include/swoc/Scalar.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index fcd84bd..42e35eb 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -988,13 +988,13 @@ Scalar<N, C, T>::operator()(Counter n) const -> self_type {
 template <intmax_t N, typename C, typename T>
 auto
 Scalar<N, C, T>::plus(Counter n) const -> self_type {
-  return {_n + n};
+  return self_type(_n + n);
 }
 
 template <intmax_t N, typename C, typename T>
 auto
 Scalar<N, C, T>::minus(Counter n) const -> self_type {
-  return {_n - n};
+  return self_type(_n - n);
 }
 
 /** Explicitly round @c value up to a multiple of @a N.
-- 
2.43.0


From 76360e61916c46c852efcfc4f4e2d4fe9e1e0663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 58/91] fix: adding or subtracting a rounded Scalar of the same
 scale did not compile

---
 code/include/swoc/Scalar.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index 42e35eb..f1aee43 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -732,25 +732,25 @@ operator+(Scalar<N, C, T> const &lhs, detail::scalar_unit_round_down_t<I> rhs) {
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator+(detail::scalar_round_up_t<N, C, T> lhs, Scalar<N, C, T> const &rhs) {
-  return Scalar<N, C, T>(rhs) += lhs._n;
+  return Scalar<N, C, T>(rhs) += lhs;
 }
 
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator+(Scalar<N, C, T> const &lhs, detail::scalar_round_up_t<N, C, T> rhs) {
-  return Scalar<N, C, T>(lhs) += rhs._n;
+  return Scalar<N, C, T>(lhs) += rhs;
 }
 
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator+(detail::scalar_round_down_t<N, C, T> lhs, Scalar<N, C, T> const &rhs) {
-  return Scalar<N, C, T>(rhs) += lhs._n;
+  return Scalar<N, C, T>(rhs) += lhs;
 }
 
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator+(Scalar<N, C, T> const &lhs, detail::scalar_round_down_t<N, C, T> rhs) {
-  return Scalar<N, C, T>(lhs) += rhs._n;
+  return Scalar<N, C, T>(lhs) += rhs;
 }
 /// @endcond
 
@@ -855,7 +855,7 @@ operator-(detail::scalar_round_up_t<N, C, T> lhs, Scalar<N, C, T> const &rhs) {
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator-(Scalar<N, C, T> const &lhs, detail::scalar_round_up_t<N, C, T> rhs) {
-  return Scalar<N, C, T>(lhs) -= rhs._n;
+  return Scalar<N, C, T>(lhs) -= rhs;
 }
 
 template <intmax_t N, typename C, typename T>
@@ -867,7 +867,7 @@ operator-(detail::scalar_round_down_t<N, C, T> lhs, Scalar<N, C, T> const &rhs)
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator-(Scalar<N, C, T> const &lhs, detail::scalar_round_down_t<N, C, T> rhs) {
-  return Scalar<N, C, T>(lhs) -= rhs._n;
+  return Scalar<N, C, T>(lhs) -= rhs;
 }
 /// @endcond
 
-- 
2.43.0


From d07f0e2c1c1fdfef80491f0f7d2e0ae05bc46bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 59/91] fix: multiplying a tagged Scalar with an int count by
 an int was ambiguous

---
 code/include/swoc/Scalar.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index f1aee43..eb926be 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -946,16 +946,16 @@ operator*(int n, Scalar<N, C, T> const &rhs) {
   return Scalar<N, C, T>(rhs) *= n;
 }
 
-template <intmax_t N>
-Scalar<N, int>
-operator*(Scalar<N, int> const &lhs, int n) {
-  return Scalar<N, int>(lhs) *= n;
+template <intmax_t N, typename T>
+Scalar<N, int, T>
+operator*(Scalar<N, int, T> const &lhs, int n) {
+  return Scalar<N, int, T>(lhs) *= n;
 }
 
-template <intmax_t N>
-Scalar<N, int>
-operator*(int n, Scalar<N, int> const &rhs) {
-  return Scalar<N, int>(rhs) *= n;
+template <intmax_t N, typename T>
+Scalar<N, int, T>
+operator*(int n, Scalar<N, int, T> const &rhs) {
+  return Scalar<N, int, T>(rhs) *= n;
 }
 
 template <intmax_t N, typename C, typename T>
-- 
2.43.0


From b413074a94dbd1799650b3d72df14118654373ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 60/91] fix: MemSpan comparison used the number of elements as
 the number of bytes

---
 code/include/swoc/MemSpan.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index dbb6c8a..519178a 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -959,14 +959,14 @@ template <typename T>
 int
 memcmp(MemSpan<T> const &lhs, MemSpan<T> const &rhs) {
   int zret = 0;
-  size_t n = lhs.size();
+  size_t n = lhs.data_size();
 
   // Seems a bit ugly but size comparisons must be done anyway to get the memcmp args.
   if (lhs.count() < rhs.count()) {
     zret = 1;
   } else if (lhs.count() > rhs.count()) {
     zret = -1;
-    n    = rhs.size();
+    n    = rhs.data_size();
   }
   // else the counts are equal therefore @a n and @a zret are already correct.
 
@@ -1118,7 +1118,7 @@ MemSpan<T>::is_same(self_type const &that) const {
 template <typename T>
 constexpr bool
 MemSpan<T>::operator==(self_type const &that) const {
-  return _count == that._count && (_ptr == that._ptr || 0 == memcmp(_ptr, that._ptr, this->size()));
+  return _count == that._count && (_ptr == that._ptr || 0 == memcmp(_ptr, that._ptr, this->data_size()));
 }
 
 template <typename T>
-- 
2.43.0


From ac261f208512f5b4a8bebfb5d25c57c368edc5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 61/91] fix: memcpy of MemSpan used the number of elements as
 the number of bytes

---
 code/include/swoc/MemSpan.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index 519178a..1955b46 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -983,19 +983,19 @@ using std::memcmp;
 template <typename T>
 T *
 memcpy(MemSpan<T> &dst, MemSpan<T> const &src) {
-  return static_cast<T *>(std::memcpy(dst.data(), src.data(), std::min(dst.size(), src.size())));
+  return static_cast<T *>(std::memcpy(dst.data(), src.data(), std::min(dst.data_size(), src.data_size())));
 }
 
 template <typename T>
 T *
 memcpy(MemSpan<T> &dst, T *src) {
-  return static_cast<T *>(std::memcpy(dst.data(), src, dst.size()));
+  return static_cast<T *>(std::memcpy(dst.data(), src, dst.data_size()));
 }
 
 template <typename T>
 T *
 memcpy(T *dst, MemSpan<T> &src) {
-  return static_cast<T *>(std::memcpy(dst, src.data(), src.size()));
+  return static_cast<T *>(std::memcpy(dst, src.data(), src.data_size()));
 }
 
 inline char *
-- 
2.43.0


From f63f5d395025fb1e2d981e0bb3c8704bc061121d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 62/91] fix: memcpy of text to a MemSpan overran the span

---
 code/include/swoc/MemSpan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index 1955b46..81373a4 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -1000,12 +1000,12 @@ memcpy(T *dst, MemSpan<T> &src) {
 
 inline char *
 memcpy(MemSpan<char> &span, std::string_view view) {
-  return static_cast<char *>(std::memcpy(span.data(), view.data(), std::min(view.size(), view.size())));
+  return static_cast<char *>(std::memcpy(span.data(), view.data(), std::min(span.size(), view.size())));
 }
 
 inline void *
 memcpy(MemSpan<void> &span, std::string_view view) {
-  return std::memcpy(span.data(), view.data(), std::min(view.size(), view.size()));
+  return std::memcpy(span.data(), view.data(), std::min(span.size(), view.size()));
 }
 
 using std::memcpy;
-- 
2.43.0


From 589445b050df27b676c3c7fb03c94a96b3b1b306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 63/91] fix: MemSpan align did not align the span

---
 code/include/swoc/MemSpan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index 81373a4..5443bb0 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -1615,7 +1615,7 @@ MemSpan<void>::align() const -> self_type {
 inline auto
 MemSpan<void const>::align(size_t alignment) const -> self_type {
   auto p       = uintptr_t(_ptr);
-  auto padding = p & (alignment - 1);
+  auto padding = -p & (alignment - 1);
   size_t size  = 0;
   if (_size > padding) { // if there's not enough to pad, result is zero size.
     size = _size - padding;
@@ -1632,7 +1632,7 @@ MemSpan<void>::align(size_t alignment) const -> self_type {
 inline auto
 MemSpan<void const>::align(size_t alignment, size_t obj_size) const -> self_type {
   auto p       = uintptr_t(_ptr);
-  auto padding = p & (alignment - 1);
+  auto padding = -p & (alignment - 1);
   size_t size  = 0;
   if (_size > padding) { // if there's not enough to pad, result is zero size.
     size = ((_size - padding) / obj_size) * obj_size;
-- 
2.43.0


From 262f8ed66fe45bbd4149d8f71466b5c59f1846c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 64/91] fix: a span of constant elements could not be assigned
 to MemSpan<void const>

---
 code/include/swoc/MemSpan.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index 5443bb0..7d2b6af 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -1399,7 +1399,7 @@ MemSpan<void const>::empty() const {
 template <typename U>
 auto
 MemSpan<void const>::operator=(MemSpan<U> const &that) -> self_type & {
-  _ptr  = that._ptr;
+  _ptr  = const_cast<std::remove_const_t<U> *>(that._ptr);
   _size = sizeof(U) * that.size();
   return *this;
 }
-- 
2.43.0


From c5a24da0039555a8678ba45afcfd141f880f7daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 65/91] fix: MemSpan make moved its arguments to the first
 element

---
 code/include/swoc/MemSpan.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index 7d2b6af..c7e4f15 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -1314,7 +1314,7 @@ template <typename... Args>
 auto
 MemSpan<T>::make(Args &&...args) -> self_type & {
   for (T *elt = this->data(), *limit = this->data_end(); elt < limit; ++elt) {
-    new (elt) T(std::forward<Args>(args)...);
+    new (elt) T(args...); // not forwarded - the arguments are used for every element.
   }
   return *this;
 }
-- 
2.43.0


From 1018e7503741e69f0c253957ff5e23585ef13d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 66/91] fix: MemSpan could not be used as a tuple

---
 code/include/swoc/MemSpan.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index c7e4f15..da534e8 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -1723,6 +1723,19 @@ template <typename T> using unique_malloc = std::unique_ptr<T, detail::malloc_li
 /// @cond NO_DOXYGEN
 // STL tuple support - this allows the @c MemSpan to be used as a tuple of a pointer
 // and size.
+namespace swoc { inline namespace SWOC_VERSION_NS {
+template <size_t IDX, typename R>
+constexpr auto
+get(MemSpan<R> const &span) {
+  static_assert(IDX < 2, "swoc::MemSpan tuple index out of range");
+  if constexpr (IDX == 0) {
+    return span.data();
+  } else {
+    return span.size();
+  }
+}
+}} // namespace swoc::SWOC_VERSION_NS
+
 namespace std {
 template <size_t IDX, typename R> class tuple_element<IDX, swoc::MemSpan<R>> {
   static_assert("swoc::MemSpan tuple index out of range");
-- 
2.43.0


From 05faa98ed1d3b2f6b77a8aca81b633b47bf946a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 67/91] fix: Vectray treated all of the static storage as valid
 elements

---
 code/include/swoc/Vectray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index e2e6485..4818774 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -263,7 +263,7 @@ template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::~FixedSto
 template <typename T, size_t N, class A>
 MemSpan<T>
 Vectray<T, N, A>::FixedStore::span() {
-  return MemSpan<std::byte>(_raw).template rebind<T>();
+  return {this->data(), _count};
 }
 
 template <typename T, size_t N, class A>
-- 
2.43.0


From f8652c2854658d103f44a256e9136bd2c934afac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 68/91] fix: Vectray static storage was not aligned for the
 element type

---
 code/include/swoc/Vectray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 4818774..679f911 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -52,7 +52,7 @@ public:                                                              // STL comp
 
   /// Internal (fixed) storage.
   struct FixedStore {
-    std::array<std::byte, sizeof(T) * N> _raw; ///< Raw memory for element storage.
+    alignas(T) std::array<std::byte, sizeof(T) * N> _raw; ///< Raw memory for element storage.
     size_t _count = 0;                         ///< Number of valid elements.
     allocator_type _a;                         ///< Allocator instance - used for construction.
 
-- 
2.43.0


From a5ddbd62773c6249e0bbe7d7ec67a4bdf39d19a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 69/91] fix: Vectray pop_back did not compile

---
 code/include/swoc/Vectray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 679f911..974fd63 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -341,7 +341,7 @@ Vectray<T, N, A>::emplace_back(Args &&...args) {
 template <typename T, size_t N, class A>
 auto
 Vectray<T, N, A>::pop_back() -> self_type & {
-  std::visit(swoc::meta::vary{[&](FixedStore &fs) -> void { std::destroy_at(fs.span()[--fs._count]); },
+  std::visit(swoc::meta::vary{[&](FixedStore &fs) -> void { std::destroy_at(fs.data() + --fs._count); },
                               [&](DynamicStore &ds) -> void { ds.pop_back(); }},
              _store);
   return *this;
-- 
2.43.0


From 27480ad8c892dd8b26ecae87aaa3f0ca4143a850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 70/91] fix: data and access to the elements of a constant
 Vectray did not compile

---
 code/include/swoc/Vectray.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 974fd63..9d9c762 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -275,7 +275,7 @@ Vectray<T, N, A>::FixedStore::data() {
 template <typename T, size_t N, class A>
 T const *
 Vectray<T, N, A>::FixedStore::data() const {
-  return reinterpret_cast<T *>(_raw.data());
+  return reinterpret_cast<T const *>(_raw.data());
 }
 
 template <typename T, size_t N, typename A>
@@ -287,7 +287,7 @@ Vectray<T, N, A>::operator[](size_type idx) {
 template <typename T, size_t N, typename A>
 T const &
 Vectray<T, N, A>::operator[](size_type idx) const {
-  return this->items[idx];
+  return this->items()[idx];
 }
 
 template <typename T, size_t N, typename A>
@@ -404,7 +404,7 @@ Vectray<T, N, A>::transfer(size_type rN) {
 template <typename T, size_t N, class A>
 auto
 Vectray<T, N, A>::items() const -> const_span {
-  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { fs.span(); },
+  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { return const_span(fs.data(), fs._count); },
                                      [](DynamicStore const &ds) { return const_span(ds.data(), ds.size()); }},
                     _store);
 }
@@ -412,14 +412,14 @@ Vectray<T, N, A>::items() const -> const_span {
 template <typename T, size_t N, class A>
 T *
 Vectray<T, N, A>::data() {
-  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { fs.data(); }, [](DynamicStore const &ds) { return ds.data(); }},
+  return std::visit(swoc::meta::vary{[](FixedStore &fs) { return fs.data(); }, [](DynamicStore &ds) { return ds.data(); }},
                     _store);
 }
 
 template <typename T, size_t N, class A>
 T const *
 Vectray<T, N, A>::data() const {
-  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { fs.data(); }, [](DynamicStore const &ds) { return ds.data(); }},
+  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { return fs.data(); }, [](DynamicStore const &ds) { return ds.data(); }},
                     _store);
 }
 
-- 
2.43.0


From 54ef789b3bea2245813ae4b7b027f89f1900b9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 71/91] fix: Vectray reference and pointer types were not those
 of the elements

---
 code/include/swoc/Vectray.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 9d9c762..a72d5db 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -39,10 +39,10 @@ template <typename T, size_t N, class A = std::allocator<T>> class Vectray {
 
 public:                                                              // STL compliance types.
   using value_type      = T;                                         ///< Element type for container.
-  using reference       = std::remove_reference<T> &;                ///< Reference to element.
-  using const_reference = std::remove_reference<T> const &;          ///< Reference to constant element.
-  using pointer         = std::remove_reference<T> *;                ///< Pointer to element.
-  using const_pointer   = std::remove_reference<T> const *;          ///< Pointer to constant element.
+  using reference       = std::remove_reference_t<T> &;                ///< Reference to element.
+  using const_reference = std::remove_reference_t<T> const &;          ///< Reference to constant element.
+  using pointer         = std::remove_reference_t<T> *;                ///< Pointer to element.
+  using const_pointer   = std::remove_reference_t<T> const *;          ///< Pointer to constant element.
   using allocator_type  = A;                                         ///< Dynamic storage allocator.
   using size_type       = typename vector_type::size_type;           ///< Type for element count.
   using difference_type = typename vector_type::difference_type;     ///< Iterator difference.
-- 
2.43.0


From 0d0fda7f0f101840b750a166edc511e0163688f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 72/91] fix: copying or assigning a Vectray copied the bytes of
 the elements

---
 code/include/swoc/Vectray.h | 59 +++++++++++++++++++++++++++++++++++--
 1 file changed, 57 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index a72d5db..02263db 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -64,8 +64,16 @@ public:                                                              // STL comp
      */
     explicit FixedStore(allocator_type const &a) : _a(a) {}
 
+    FixedStore(FixedStore const &that);            ///< Copy the elements.
+    FixedStore(FixedStore &&that);                 ///< Move the elements.
+    FixedStore &operator=(FixedStore const &that); ///< Copy the elements.
+    FixedStore &operator=(FixedStore &&that);      ///< Move the elements.
+
     ~FixedStore();
 
+    /// Destroy the valid elements.
+    void clear();
+
     /// @return A span containing the valid elements.
     MemSpan<T> span();
 
@@ -100,6 +108,11 @@ public:
    */
   explicit Vectray(size_type n, allocator_type const &alloc = allocator_type{});
 
+  Vectray(self_type const &that)            = default; ///< Copy constructor.
+  Vectray(self_type &&that)                 = default; ///< Move constructor.
+  self_type &operator=(self_type const &that) = default; ///< Copy assignment.
+  self_type &operator=(self_type &&that)      = default; ///< Move assignment.
+
   /// Move constructor for difference static sized instance.
   template <size_t M> Vectray(Vectray<T, M, A> &&that);
 
@@ -254,9 +267,51 @@ template <typename T, size_t N, class A> template <size_t M> Vectray<T, N, A>::V
   }
 }
 
+template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::FixedStore(FixedStore const &that) : _a(that._a) {
+  for (; _count < that._count; ++_count) {
+    new (this->data() + _count) T(that.data()[_count]);
+  }
+}
+
+template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::FixedStore(FixedStore &&that) : _a(that._a) {
+  for (; _count < that._count; ++_count) {
+    new (this->data() + _count) T(std::move(that.data()[_count]));
+  }
+}
+
+template <typename T, size_t N, class A>
+auto
+Vectray<T, N, A>::FixedStore::operator=(FixedStore const &that) -> FixedStore & {
+  if (this != &that) {
+    this->clear();
+    for (; _count < that._count; ++_count) {
+      new (this->data() + _count) T(that.data()[_count]);
+    }
+  }
+  return *this;
+}
+
+template <typename T, size_t N, class A>
+auto
+Vectray<T, N, A>::FixedStore::operator=(FixedStore &&that) -> FixedStore & {
+  if (this != &that) {
+    this->clear();
+    for (; _count < that._count; ++_count) {
+      new (this->data() + _count) T(std::move(that.data()[_count]));
+    }
+  }
+  return *this;
+}
+
 template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::~FixedStore() {
-  for (auto &item : this->span()) {
-    std::destroy_at(std::addressof(item));
+  this->clear();
+}
+
+template <typename T, size_t N, class A>
+void
+Vectray<T, N, A>::FixedStore::clear() {
+  while (_count > 0) {
+    std::destroy_at(this->data() + --_count);
   }
 }
 
-- 
2.43.0


From b2fb9d5f1d466689f11c2af3c46fb732275d534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 73/91] fix: moving a Vectray of another static size did not
 compile and dropped elements, with an allocator it did not link

---
 code/include/swoc/Vectray.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 02263db..419dc64 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -35,6 +35,7 @@ namespace swoc { inline namespace SWOC_VERSION_NS {
  */
 template <typename T, size_t N, class A = std::allocator<T>> class Vectray {
   using self_type   = Vectray;           ///< Self reference type.
+  template <typename, size_t, class> friend class Vectray;
   using vector_type = std::vector<T, A>; ///< Internal dynamic storage type.
 
 public:                                                              // STL compliance types.
@@ -258,11 +259,19 @@ template <typename T, size_t N, class A> template <size_t M> Vectray<T, N, A>::V
     _store = std::move(std::get<DYNAMIC>(that._store));
   } else {
     auto span = std::get<FIXED>(that._store).span();
-    if (span.size() > N) {
-    } else {
-      for (auto &&item : span) {
-        this->template emplace_back(std::move(item));
-      }
+    this->reserve(span.size());
+    for (auto &&item : span) {
+      this->emplace_back(std::move(item));
+    }
+  }
+}
+
+template <typename T, size_t N, class A> Vectray<T, N, A>::Vectray(self_type &&that, allocator_type const &a) : Vectray(a) {
+  if (DYNAMIC == that._store.index()) {
+    _store = DynamicStore(std::move(std::get<DYNAMIC>(that._store)), a);
+  } else {
+    for (auto &&item : std::get<FIXED>(that._store).span()) {
+      this->emplace_back(std::move(item));
     }
   }
 }
-- 
2.43.0


From 8ddf8a2db6549691c59417beb031d2bbcc2454ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 74/91] fix: adding an element of a Vectray to itself used the
 element after it was destroyed

---
 code/include/swoc/Vectray.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 419dc64..66a2856 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -361,8 +361,9 @@ Vectray<T, N, A>::push_back(const T &t) -> self_type & {
                                 if (fs._count < N) {
                                   new (reinterpret_cast<T *>(fs._raw.data()) + fs._count++) T(t); // A::traits ?
                                 } else {
+                                  T tmp(t); // @a t can be an element of @a this.
                                   this->transfer();
-                                  std::get<DYNAMIC>(_store).push_back(t);
+                                  std::get<DYNAMIC>(_store).push_back(std::move(tmp));
                                 }
                               },
                               [&](DynamicStore &ds) -> void { ds.push_back(t); }},
@@ -377,8 +378,9 @@ Vectray<T, N, A>::push_back(T &&t) -> self_type & {
                                 if (fs._count < N) {
                                   new (reinterpret_cast<T *>(fs._raw.data()) + fs._count++) T(std::move(t)); // A::traits ?
                                 } else {
+                                  T tmp(std::move(t)); // @a t can be an element of @a this.
                                   this->transfer();
-                                  std::get<DYNAMIC>(_store).push_back(std::move(t));
+                                  std::get<DYNAMIC>(_store).push_back(std::move(tmp));
                                 }
                               },
                               [&](DynamicStore &ds) -> void { ds.push_back(std::move(t)); }},
@@ -396,7 +398,10 @@ Vectray<T, N, A>::emplace_back(Args &&...args) {
       new (reinterpret_cast<T *>(fs._raw.data()) + fs._count++) T(std::forward<Args>(args)...); // A::traits ?
       return *this;
     }
-    this->transfer(); // transfer to dynamic and fall through to add item.
+    T tmp(std::forward<Args>(args)...); // the arguments can be elements of @a this.
+    this->transfer();                   // transfer to dynamic.
+    std::get<DYNAMIC>(_store).push_back(std::move(tmp));
+    return *this;
   }
   std::get<DYNAMIC>(_store).emplace_back(std::forward<Args>(args)...);
   return *this;
-- 
2.43.0


From 08aaebe1f83d38378664b04da907b0d66f1f3c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 75/91] fix: Vectray of n elements ignored the allocator

---
 code/include/swoc/Vectray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 66a2856..75f61cf 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -246,7 +246,7 @@ protected:
 
 template <typename T, size_t N, typename A> Vectray<T, N, A>::Vectray() {}
 
-template <typename T, size_t N, class A> Vectray<T, N, A>::Vectray(Vectray::size_type n, allocator_type const &alloc) : Vectray() {
+template <typename T, size_t N, class A> Vectray<T, N, A>::Vectray(Vectray::size_type n, allocator_type const &alloc) : Vectray(alloc) {
   this->reserve(n);
   while (n-- > 0) {
     this->emplace_back();
-- 
2.43.0


From 3789e5477280dafbbf436168814a65a79fefc402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:07 +0000
Subject: [PATCH 76/91] fix: Errata without annotations did not report its code

---
 code/include/swoc/Errata.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/Errata.h b/code/include/swoc/Errata.h
index 6ee0be5..09131dc 100644
--- a/code/include/swoc/Errata.h
+++ b/code/include/swoc/Errata.h
@@ -1124,7 +1124,7 @@ Errata::empty() const {
 
 inline auto
 Errata::code() const -> code_type const & {
-  return this->empty() ? DEFAULT_CODE : _data->_code;
+  return _data ? _data->_code : DEFAULT_CODE;
 }
 
 inline auto
-- 
2.43.0


From b0a873a7c0cc34f6bb094c0bd864559ffa6978a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:07 +0000
Subject: [PATCH 77/91] fix: copying the annotations of an Errata to itself did
 not terminate

---
 code/src/Errata.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/src/Errata.cc b/code/src/Errata.cc
index 4ffd875..80af6e0 100644
--- a/code/src/Errata.cc
+++ b/code/src/Errata.cc
@@ -103,7 +103,9 @@ Errata::note(const self_type &that) {
     if (that.has_severity()) {
       this->update(that.severity());
     }
-    for (auto const &annotation : that) {
+    auto n = that.length(); // @a that can be @a this, do not copy the copies.
+    for (auto spot = that.begin(); n > 0; ++spot, --n) {
+      auto const &annotation = *spot;
       d->_notes.append(d->_arena.make<Annotation>(d->localize(annotation._text), annotation._severity, annotation._level + 1));
     }
   }
-- 
2.43.0


From fae0a14d169378485b8efe4f8a8d580f674e3a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:41 +0000
Subject: [PATCH 78/91] fix: temp_directory_path ignored TEMP

---
 code/src/swoc_file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 374f4fc..4619c88 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -225,7 +225,7 @@ temp_directory_path() {
   /* ISO/IEC 9945 (POSIX): The path supplied by the first environment variable found in the list TMPDIR, TMP, TEMP, TEMPDIR.
    * If none of these are found, "/tmp"
    * */
-  for (char const *tp : {"TMPDIR", "TMP", "TEMPDIR"}) {
+  for (char const *tp : {"TMPDIR", "TMP", "TEMP", "TEMPDIR"}) {
     if (auto v = ::getenv(tp); v) {
       return path(v);
     }
-- 
2.43.0


From a53bab07bf6245c2e6d767beeca4d031742d9f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:41 +0000
Subject: [PATCH 79/91] fix: canonical left a previous error in the error code

---
 code/src/swoc_file.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 4619c88..b3fc7b7 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -254,14 +254,15 @@ canonical(const path &p, std::error_code &ec) {
     return {};
   }
 
+  ec.clear();
   char buf[PATH_MAX + 1];
 
   if (auto rp = ::realpath(p.c_str(), buf); rp) {
     return path{rp};
   }
 
-  if (auto rp = ::realpath(p.c_str(), nullptr); rp) {
-    return path{rp};
+  if (swoc::unique_malloc<char> rp{::realpath(p.c_str(), nullptr)}; rp) {
+    return path{rp.get()};
   }
 
   ec = std::error_code(errno, std::system_category());
-- 
2.43.0


From f694a85820fbcaf94278b9857dbd02f1515fb13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:41 +0000
Subject: [PATCH 80/91] fix: remove and remove_all failed if the error code was
 set before

---
 code/src/swoc_file.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index b3fc7b7..3287f92 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -381,6 +381,7 @@ remove_all(const path &p, std::error_code &ec) {
   uintmax_t zret = 0;
 
   struct ::stat s {};
+  ec.clear();
   if (p.empty()) {
     ec = std::error_code(EINVAL, std::system_category());
     return zret;
@@ -415,7 +416,10 @@ remove_all(const path &p, std::error_code &ec) {
     }
     child  = p;
     child /= entry->d_name;
-    zret  += remove_all(child, ec);
+    zret  += remove_all(child, err);
+    if (err) {
+      ec = err;
+    }
   }
 
   if (0 != rmdir(p.c_str())) {
@@ -431,6 +435,7 @@ bool
 remove(path const &p, std::error_code &ec) {
   // coverity TOCTOU - issue is doing stat before doing operation. Stupid complaint, ignore.
   struct ::stat fs {};
+  ec.clear();
   if (p.empty()) {
     ec = std::error_code(EINVAL, std::system_category());
   } else if (::stat(p.c_str(), &fs) < 0) {
-- 
2.43.0


From 25c47a4ff5145d7eb7ebfbf29a5532ffc2adb787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:41 +0000
Subject: [PATCH 81/91] fix: remove_all counted a directory that was not
 removed

---
 code/src/swoc_file.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 3287f92..e5402c4 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -424,8 +424,9 @@ remove_all(const path &p, std::error_code &ec) {
 
   if (0 != rmdir(p.c_str())) {
     ec = std::error_code(errno, std::system_category());
+  } else {
+    ++zret;
   }
-  ++zret;
 
   closedir(dir);
   return zret;
-- 
2.43.0


From 31147de996e0856cc8bd6b758979391b2e150990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:41 +0000
Subject: [PATCH 82/91] fix: remove_all removed files outside of the directory
 through symbolic links, remove failed for links not to files

---
 code/src/swoc_file.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index e5402c4..beae6f9 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -385,10 +385,10 @@ remove_all(const path &p, std::error_code &ec) {
   if (p.empty()) {
     ec = std::error_code(EINVAL, std::system_category());
     return zret;
-  } else if (::stat(p.c_str(), &s) < 0) {
+  } else if (::lstat(p.c_str(), &s) < 0) {
     ec = std::error_code(errno, std::system_category());
     return zret;
-  } else if (S_ISREG(s.st_mode)) { // regular file, try to remove it!
+  } else if (S_ISREG(s.st_mode) || S_ISLNK(s.st_mode)) { // regular file or link, try to remove it!
     // coverity[toctou : SUPPRESS]
     if (unlink(p.c_str()) != 0) {
       ec = std::error_code(errno, std::system_category());
@@ -439,9 +439,9 @@ remove(path const &p, std::error_code &ec) {
   ec.clear();
   if (p.empty()) {
     ec = std::error_code(EINVAL, std::system_category());
-  } else if (::stat(p.c_str(), &fs) < 0) {
+  } else if (::lstat(p.c_str(), &fs) < 0) {
     ec = std::error_code(errno, std::system_category());
-  } else if (S_ISREG(fs.st_mode)) { // regular file, try to remove it!
+  } else if (S_ISREG(fs.st_mode) || S_ISLNK(fs.st_mode)) { // regular file or link, try to remove it!
     // coverity[toctou : SUPPRESS]
     if (unlink(p.c_str()) != 0) {
       ec = std::error_code(errno, std::system_category());
-- 
2.43.0


From d8774dc09dae1eb769f06fff5be580e65086225b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:41 +0000
Subject: [PATCH 83/91] fix: copy reported success if reading or writing
 failed, and kept the end of a longer destination file

---
 code/src/swoc_file.cc | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index beae6f9..9e9ef70 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -344,6 +344,10 @@ copy(const path &from, const path &to, std::error_code &ec) {
     return false;
   }
   auto src_fs = file::status(from, local_ec);
+  if (is_dir(src_fs)) {
+    ec = std::error_code(EISDIR, std::system_category());
+    return false;
+  }
 
   path final_to;
   if (auto fs = file::status(to, local_ec); !(local_ec && ENOENT == local_ec.value()) && is_dir(fs)) {
@@ -358,17 +362,33 @@ copy(const path &from, const path &to, std::error_code &ec) {
     return false;
   }
 
+  off_t size = 0;
   while (true) {
-    if (auto n = read(src_fd, span.data(), span.size()); n > 0) {
-      if (::write(dst_fd, span.data(), n) < n) {
+    auto n = ::read(src_fd, span.data(), span.size());
+    if (n < 0) {
+      ec = std::error_code(errno, std::system_category());
+      return false;
+    } else if (n == 0) {
+      break;
+    }
+    for (auto data = span.prefix(n); !data.empty();) {
+      auto k = ::write(dst_fd, data.data(), data.size());
+      if (k < 0) {
         ec = std::error_code(errno, std::system_category());
-        break;
+        return false;
       }
-    } else {
-      break;
+      data.remove_prefix(k);
+      size += k;
     }
   }
 
+  // The destination can be an existing file that is longer. It can also be the source, therefore do not truncate when opening.
+  struct ::stat info {};
+  if (0 != ::fstat(dst_fd, &info) || (S_ISREG(info.st_mode) && info.st_size > size && 0 != ::ftruncate(dst_fd, size))) {
+    ec = std::error_code(errno, std::system_category());
+    return false;
+  }
+
   return true;
 }
 
-- 
2.43.0


From 9ea60a5f95ca482c77783da25a0fa7e90f4cc349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 84/91] fix: appending a path to itself used the text after it
 was released

---
 code/src/swoc_file.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 9e9ef70..0c9eb83 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -6,6 +6,7 @@
     Minimalist version of std::filesystem.
  */
 
+#include <functional>
 #include <variant>
 
 #include <fcntl.h>
@@ -46,6 +47,11 @@ path::operator/=(std::string_view that) {
     if (that.front() == SEPARATOR || _path.empty()) {
       _path.assign(that);
     } else {
+      // @a that can be (part of) this path, which must not change before that is appended.
+      if (std::less_equal<char const *>()(_path.data(), that.data()) &&
+          std::less<char const *>()(that.data(), _path.data() + _path.size())) {
+        return *this /= self_type(that);
+      }
       if (_path.back() == SEPARATOR) {
         _path.reserve(_path.size() + that.size());
       } else {
-- 
2.43.0


From 46e54e40cd07db1a4f4248a40d2ff5be14343b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 85/91] fix: Vectray counted an element in static storage if
 its construction threw an exception

---
 code/include/swoc/Vectray.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 75f61cf..faacc1a 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -359,7 +359,8 @@ auto
 Vectray<T, N, A>::push_back(const T &t) -> self_type & {
   std::visit(swoc::meta::vary{[&](FixedStore &fs) -> void {
                                 if (fs._count < N) {
-                                  new (reinterpret_cast<T *>(fs._raw.data()) + fs._count++) T(t); // A::traits ?
+                                  new (reinterpret_cast<T *>(fs._raw.data()) + fs._count) T(t); // A::traits ?
+                                  ++fs._count; // only if the construction succeeded.
                                 } else {
                                   T tmp(t); // @a t can be an element of @a this.
                                   this->transfer();
@@ -376,7 +377,8 @@ auto
 Vectray<T, N, A>::push_back(T &&t) -> self_type & {
   std::visit(swoc::meta::vary{[&](FixedStore &fs) -> void {
                                 if (fs._count < N) {
-                                  new (reinterpret_cast<T *>(fs._raw.data()) + fs._count++) T(std::move(t)); // A::traits ?
+                                  new (reinterpret_cast<T *>(fs._raw.data()) + fs._count) T(std::move(t)); // A::traits ?
+                                  ++fs._count; // only if the construction succeeded.
                                 } else {
                                   T tmp(std::move(t)); // @a t can be an element of @a this.
                                   this->transfer();
@@ -395,7 +397,8 @@ Vectray<T, N, A>::emplace_back(Args &&...args) {
   if (_store.index() == FIXED) {
     auto &fs{std::get<FIXED>(_store)};
     if (fs._count < N) {
-      new (reinterpret_cast<T *>(fs._raw.data()) + fs._count++) T(std::forward<Args>(args)...); // A::traits ?
+      new (reinterpret_cast<T *>(fs._raw.data()) + fs._count) T(std::forward<Args>(args)...); // A::traits ?
+      ++fs._count; // only if the construction succeeded.
       return *this;
     }
     T tmp(std::forward<Args>(args)...); // the arguments can be elements of @a this.
-- 
2.43.0


From 06d7a9107510ba79061d17e1c332c4cfd29aa7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 86/91] fix: a failed copy of a Vectray did not destroy the
 elements copied, a failed assignment left a Vectray without storage

---
 code/include/swoc/Vectray.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index faacc1a..d1ea683 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -66,7 +66,7 @@ public:                                                              // STL comp
     explicit FixedStore(allocator_type const &a) : _a(a) {}
 
     FixedStore(FixedStore const &that);            ///< Copy the elements.
-    FixedStore(FixedStore &&that);                 ///< Move the elements.
+    FixedStore(FixedStore &&that) noexcept(std::is_nothrow_move_constructible_v<T>); ///< Move the elements.
     FixedStore &operator=(FixedStore const &that); ///< Copy the elements.
     FixedStore &operator=(FixedStore &&that);      ///< Move the elements.
 
@@ -276,13 +276,13 @@ template <typename T, size_t N, class A> Vectray<T, N, A>::Vectray(self_type &&t
   }
 }
 
-template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::FixedStore(FixedStore const &that) : _a(that._a) {
+template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::FixedStore(FixedStore const &that) : FixedStore(that._a) {
   for (; _count < that._count; ++_count) {
     new (this->data() + _count) T(that.data()[_count]);
   }
 }
 
-template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::FixedStore(FixedStore &&that) : _a(that._a) {
+template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::FixedStore(FixedStore &&that) noexcept(std::is_nothrow_move_constructible_v<T>) : FixedStore(that._a) {
   for (; _count < that._count; ++_count) {
     new (this->data() + _count) T(std::move(that.data()[_count]));
   }
-- 
2.43.0


From 66362c04840cc2deeb6253be23ea8833d328c979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 87/91] fix: RBNode::rotate updated the new parent before its
 new child, from stale data

---
 code/src/RBTree.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/RBTree.cc b/code/src/RBTree.cc
index 1697284..71978b7 100644
--- a/code/src/RBTree.cc
+++ b/code/src/RBTree.cc
@@ -44,8 +44,8 @@ RBNode::rotate(Direction dir) {
     this->set_child(child->child_at(dir), other_dir);
     child->clear_child(dir);
     child->set_child(this, dir);
+    this->structure_fixup(); // @a this is now a child of @a child, must be correct first.
     child->structure_fixup();
-    this->structure_fixup();
     if (parent) {
       parent->clear_child(child_dir);
       parent->set_child(child, child_dir);
-- 
2.43.0


From 2bd7fdcdef46fa213ae311976b281ba72d41febb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 88/91] fix: swoc::meta::let lost the value of the variable if
 the temporary value is the variable, or copying it throws

---
 code/include/swoc/swoc_meta.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/swoc_meta.h b/code/include/swoc/swoc_meta.h
index 72dffaa..91ab491 100644
--- a/code/include/swoc/swoc_meta.h
+++ b/code/include/swoc/swoc_meta.h
@@ -280,8 +280,9 @@ template <typename T> struct let {
   ~let();
 };
 
-template <typename T> let<T>::let(T &var, T const &value) : _var(var), _value(std::move(var)) {
-  _var = value;
+// Copy first - that can fail, in which case @a var must not be changed, and @a value can be @a var.
+template <typename T> let<T>::let(T &var, T const &value) : _var(var), _value(value) {
+  std::swap(_var, _value);
 }
 template <typename T> let<T>::let(T &var, T &&value) : _var(var), _value(std::move(var)) {
   _var = std::move(value);
-- 
2.43.0


From 042fe3c6a5bbcc36766fefe208dd9a642311e80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 89/91] fix: FNV hash was not the FNV hash for bytes over 127

---
 code/include/swoc/ext/HashFNV.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/ext/HashFNV.h b/code/include/swoc/ext/HashFNV.h
index b22d43f..932c385 100644
--- a/code/include/swoc/ext/HashFNV.h
+++ b/code/include/swoc/ext/HashFNV.h
@@ -177,7 +177,7 @@ template <typename X, typename V>
 auto
 Hash32FNV1a::update(TransformView<X, V> view) -> self_type & {
   for (; view; ++view) {
-    hval ^= static_cast<value_type>(*view);
+    hval ^= static_cast<uint8_t>(*view);
     hval += (hval << 1) + (hval << 4) + (hval << 7) + (hval << 8) + (hval << 24);
   }
   return *this;
@@ -221,7 +221,7 @@ template <typename X, typename V>
 auto
 Hash64FNV1a::update(TransformView<X, V> view) -> self_type & {
   for (; view; ++view) {
-    hval ^= static_cast<value_type>(*view);
+    hval ^= static_cast<uint8_t>(*view);
     hval += (hval << 1) + (hval << 4) + (hval << 5) + (hval << 7) + (hval << 8) + (hval << 40);
   }
   return *this;
-- 
2.43.0


From f0166f751097dac285826d0ace421d7d821962f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:17 +0000
Subject: [PATCH 90/91] fix: Assigning an invalid address with a port to an
 endpoint kept the previous address and port.

---
 code/src/swoc_ip.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 8243aa0..cc09e2e 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -112,6 +112,8 @@ IPEndpoint::assign(IPAddr const &addr, in_port_t port) {
     this->assign(IP4Srv(addr.ip4(), port));
   } else if (addr.is_ip6()) {
     this->assign(IP6Srv(addr.ip6(), port));
+  } else {
+    this->invalidate();
   }
   return *this;
 }
-- 
2.43.0


From f8912da9e17d7e688b496c5580a0375838c79981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:10 +0000
Subject: [PATCH 91/91] fix: ArenaWriter forgot restricted capacity when its
 buffer grew, restoring it then overran the arena block.

---
 code/include/swoc/ArenaWriter.h |  9 ++++++++-
 code/src/ArenaWriter.cc         | 22 +++++++++++++++++++---
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/code/include/swoc/ArenaWriter.h b/code/include/swoc/ArenaWriter.h
index 6f32fc4..1dc6130 100644
--- a/code/include/swoc/ArenaWriter.h
+++ b/code/include/swoc/ArenaWriter.h
@@ -48,8 +48,15 @@ public:
    */
   bool commit(size_t n) override;
 
+  /// Reduce the capacity by @a n bytes.
+  self_type &restrict(size_t n) override;
+
+  /// Restore @a n bytes of capacity.
+  self_type &restore(size_t n) override;
+
 protected:
-  MemArena &_arena; ///< Arena for the buffer.
+  MemArena &_arena;       ///< Arena for the buffer.
+  size_t _restricted = 0; ///< Capacity removed by @c restrict, which is in the buffer past the capacity.
 
   /** Reallocate the buffer to increase the capacity.
    *
diff --git a/code/src/ArenaWriter.cc b/code/src/ArenaWriter.cc
index c25265e..fbb68e6 100644
--- a/code/src/ArenaWriter.cc
+++ b/code/src/ArenaWriter.cc
@@ -35,12 +35,28 @@ ArenaWriter::commit(size_t n) {
   return this->super_type::commit(n);
 }
 
+ArenaWriter &
+ArenaWriter::restrict(size_t n) {
+  this->super_type::restrict(n);
+  _restricted += n;
+  return *this;
+}
+
+ArenaWriter &
+ArenaWriter::restore(size_t n) {
+  this->super_type::restore(n);
+  _restricted -= std::min(n, _restricted);
+  return *this;
+}
+
 void
 ArenaWriter::realloc(size_t n) {
-  auto text                    = this->view(); // Current data.
-  auto span                    = _arena.require(n).remnant().rebind<char>();
+  // Current data, including any in the restricted part of the buffer.
+  TextView text{_buffer, std::min(_attempted, _capacity + _restricted)};
+  // The restricted capacity must be in the new buffer, because it can be restored later.
+  auto span                    = _arena.require(n + _restricted).remnant().rebind<char>();
   const_cast<char *&>(_buffer) = span.data();
-  _capacity                    = span.size();
+  _capacity                    = span.size() - _restricted;
   memcpy(_buffer, text.data(), text.size());
 }
 
-- 
2.43.0

