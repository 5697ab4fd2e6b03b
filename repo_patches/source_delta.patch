From a3c56e093250bd45116959a06ba4d3d6a9ad994e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 1/7] fix: AvlMap::retain visits entries in ascending key order

The predicate saw the left subtree, then the right subtree, then the node
itself, so a stateful predicate behaved differently from
std::collections::BTreeMap::retain and from BTreeMap::retain.
---
 src/avl.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/avl.rs b/src/avl.rs
index e0b793a..2598493 100644
--- a/src/avl.rs
+++ b/src/avl.rs
@@ -705,11 +705,12 @@ where
     };
 
     let (left, left_len) = retain(root.left.clone(), f);
+    let mut v = root.val.clone();
+    let keep = f(&root.key, &mut v);
     let (right, right_len) = retain(root.right.clone(), f);
     let len = left_len + right_len;
-    let mut v = root.val.clone();
 
-    if f(&root.key, &mut v) {
+    if keep {
         (join(left, root.key.clone(), v, right), len + 1)
     } else {
         (join2(left, None, right), len)
-- 
2.43.0


From 37d0ec7a1aedf5eaa7541f8e09a74005232d0b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 2/7] fix: a panic in the AVL retain predicate no longer leaves
 a stale length

AvlMap::retain and AvlSet::retain took the root but kept the old length
while the predicate ran; when it panicked, len() disagreed with the (empty)
contents and is_empty() was false. BTreeMap::retain already leaves an empty map.
---
 src/avl.rs         | 5 ++++-
 src/avl/avl_set.rs | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/avl.rs b/src/avl.rs
index 2598493..b862c04 100644
--- a/src/avl.rs
+++ b/src/avl.rs
@@ -1763,7 +1763,10 @@ impl<K, V> AvlMap<K, V> {
         V: Clone,
         F: FnMut(&K, &mut V) -> bool,
     {
-        let (root, len) = retain(self.root.take(), &mut f);
+        // if f panics, self is left empty
+        let old_root = self.root.take();
+        self.len = 0;
+        let (root, len) = retain(old_root, &mut f);
         self.root = root;
         self.len = len;
     }
diff --git a/src/avl/avl_set.rs b/src/avl/avl_set.rs
index 888aff1..a818f2e 100644
--- a/src/avl/avl_set.rs
+++ b/src/avl/avl_set.rs
@@ -352,6 +352,8 @@ impl<T> AvlSet<T> {
         }
 
         let Some(mut root) = self.map.root.take() else { return; };
+        // if f panics, self is left empty
+        self.map.len = 0;
         Arc::make_mut(&mut root);
         let Ok(root) = Arc::try_unwrap(root) else { panic!("try_unwrap fail?") };
         let mut acc = AvlMap::new();
-- 
2.43.0


From 60bf410a7d1028b108059b929816e00225434d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 3/7] fix: BTreeSet::is_subset and is_superset accept equal
 sets

A set is a subset of an equal set, but the size shortcut demanded a strictly
smaller one (std::collections::BTreeSet and AvlSet return true).
---
 src/btree/btree_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/btree/btree_set.rs b/src/btree/btree_set.rs
index 8676567..505f7b2 100644
--- a/src/btree/btree_set.rs
+++ b/src/btree/btree_set.rs
@@ -125,7 +125,7 @@ impl<T, const N: usize> BTreeSet<T, N> {
         T: Ord,
     {
         self.is_empty()
-            || (self.len() < other.len()
+            || (self.len() <= other.len()
                 && self.difference(other).next().is_none())
     }
 
-- 
2.43.0


From ec7d1148bf1805550ee2f452e8828c1f49245baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 4/7] fix: next_back on fixed BTreeMap iterators walks from the
 back

---
 src/btree/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/btree/core.rs b/src/btree/core.rs
index 30a6f5a..311badd 100644
--- a/src/btree/core.rs
+++ b/src/btree/core.rs
@@ -1285,7 +1285,7 @@ impl<E, N, NI: NodeIterator<E, N>> DoubleEndedIterator for InnerIter<E, N, NI> {
     fn next_back(&mut self) -> Option<Self::Item> {
         use IterAction::*;
         while let Some(w) = self.work.back_mut() {
-            match w.next() {
+            match w.next_back() {
                 Some(Return(kv)) => {
                     self.len -= 1;
                     return Some(kv);
-- 
2.43.0


From 2a8beddff255ff60891771e98e61aff4c94acc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 5/7] fix: owning fixed BTreeMap iterator advances the back end
 in next_back

---
 src/btree/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/btree/core.rs b/src/btree/core.rs
index 311badd..5a272c4 100644
--- a/src/btree/core.rs
+++ b/src/btree/core.rs
@@ -1169,7 +1169,7 @@ where
                 Err(arc) => Some(Descend(Leased(arc))),
             }
         } else if self.next_elem_x < self.end_elems {
-            self.next_elem_x -= 1;
+            self.end_elems -= 1;
             let kv = match &mut self.n {
                 Owned(n) => unsafe {
                     let k = n.elems.keys[self.end_elems].assume_init_read();
-- 
2.43.0


From 1aedfb091680ecb0067e02c39cc8ae5cf949807a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 6/7] fix: deserialization accepts a size hint of usize::MAX

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 84fc0eb..1836ffc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -405,8 +405,8 @@ mod serde {
 
                     Ok(MAP::make_half(scratch))
                 } else {
-                    let lf_len = (len + 1) / 2; // left gets big half for mid pt
-                    let rt_len = len - lf_len;
+                    let rt_len = len / 2;
+                    let lf_len = len - rt_len; // left gets big half for mid pt
                     let lhs =
                         build_map_by_halves::<MAP, M>(access, lf_len, scratch)?;
                     let rhs =
-- 
2.43.0


From d353eb2d62567b73653d472dc406ece1439d9b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:42 +0000
Subject: [PATCH 7/7] fix: AvlMap::retain does not clone the elements of
 unshared nodes

---
 src/avl.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/avl.rs b/src/avl.rs
index b862c04..660b0dc 100644
--- a/src/avl.rs
+++ b/src/avl.rs
@@ -694,24 +694,28 @@ where
     }
 }
 
-fn retain<K, V, F>(root: OptNode<K, V>, f: &mut F) -> (OptNode<K, V>, usize)
+fn retain<K, V, F>(
+    mut root: OptNode<K, V>,
+    f: &mut F,
+) -> (OptNode<K, V>, usize)
 where
     K: Clone + Ord,
     V: Clone,
     F: FnMut(&K, &mut V) -> bool,
 {
-    let Some(root) = root else {
+    let Some(rc) = root.as_mut() else {
         return (None, 0);
     };
 
-    let (left, left_len) = retain(root.left.clone(), f);
-    let mut v = root.val.clone();
-    let keep = f(&root.key, &mut v);
-    let (right, right_len) = retain(root.right.clone(), f);
+    Arc::make_mut(rc); // clones the node only if it is shared
+    let mut n = take_node(&mut root);
+    let (left, left_len) = retain(n.left.take(), f);
+    let keep = f(&n.key, &mut n.val);
+    let (right, right_len) = retain(n.right.take(), f);
     let len = left_len + right_len;
 
     if keep {
-        (join(left, root.key.clone(), v, right), len + 1)
+        (join(left, n.key, n.val, right), len + 1)
     } else {
         (join2(left, None, right), len)
     }
-- 
2.43.0

