From 173e4b39533e4a19b648afedf3620ba1fd540c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 1/6] fix: advance along the right collision list when
 collecting its entries

---
 src/node/lnode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/node/lnode.rs b/src/node/lnode.rs
index f873bef..3ba1131 100644
--- a/src/node/lnode.rs
+++ b/src/node/lnode.rs
@@ -308,7 +308,7 @@ where
             match &r.next {
                 LNodeNext::L(lnode) => {
                     rights.push((&lnode.key, &lnode.value));
-                    r = right;
+                    r = lnode;
                 },
                 LNodeNext::S(snode) => {
                     rights.push((snode.key(), snode.value()));
@@ -446,7 +446,7 @@ where
             match &r.next {
                 LNodeNext::L(lnode) => {
                     rights.push((&lnode.key, &lnode.value));
-                    r = right;
+                    r = lnode;
                 },
                 LNodeNext::S(snode) => {
                     rights.push((snode.key(), snode.value()));
@@ -567,7 +567,7 @@ where
             match &r.next {
                 LNodeNext::L(lnode) => {
                     rights.push((&lnode.key, &lnode.value));
-                    r = right;
+                    r = lnode;
                 },
                 LNodeNext::S(snode) => {
                     rights.push((snode.key(), snode.value()));
-- 
2.43.0


From 53bcfda81a00cb46f092d85c415e0245bcc8119e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 2/6] fix: stop splitting once every bit of the hash word is
 used

---
 src/flag.rs       |  2 +-
 src/node/lnode.rs | 33 ++++++++++++++++++---------------
 src/node/snode.rs |  2 +-
 3 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/flag.rs b/src/flag.rs
index eaa1e56..7b32cc4 100644
--- a/src/flag.rs
+++ b/src/flag.rs
@@ -20,7 +20,7 @@ impl <H: Hashword, F: Flagword<H>> Flag<H, F> where <F as core::convert::TryFrom
 
     #[must_use]
     pub(crate) fn new_at_depth(hash_value: H, depth: usize) -> Option<Self> {
-        if depth * F::log_b() >= 8 * <H>::max_ones() {
+        if depth * F::log_b() >= <H>::max_ones() {
             None
         }
         else {
diff --git a/src/node/lnode.rs b/src/node/lnode.rs
index 3ba1131..5b14b37 100644
--- a/src/node/lnode.rs
+++ b/src/node/lnode.rs
@@ -114,7 +114,7 @@ where
         else {
             LNodeInsertResult::Found(k, v)
         },
-        FindResult::NotFound => lift_to_cnode_and_insert(LNodeNext::L(this.clone()), key, value, key_flag.unwrap())
+        FindResult::NotFound => lift_to_cnode_and_insert(LNodeNext::L(this.clone()), key, value, key_flag)
     }
 }
 
@@ -1211,7 +1211,7 @@ where
 }
 
 #[must_use]
-pub(super) fn lift_to_cnode_and_insert<'a, H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key + Into<K>, W: Into<V>, M: HasherBv<H, K>>(this: LNodeNext<K, V>, key: L, value: W, key_flag: Flag<H, F>) -> LNodeInsertResult<'a, H, F, K, V, M>
+pub(super) fn lift_to_cnode_and_insert<'a, H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key + Into<K>, W: Into<V>, M: HasherBv<H, K>>(this: LNodeNext<K, V>, key: L, value: W, key_flag: Option<Flag<H, F>>) -> LNodeInsertResult<'a, H, F, K, V, M>
 where
     K: HashLike<L>,
     K: PartialEq<L>,
@@ -1219,19 +1219,22 @@ where
     <F as core::convert::TryFrom<<H as core::ops::BitAnd>::Output>>::Error: core::fmt::Debug
 {
     let this_hash = M::default().hash(this.key());
-    if this_hash == key_flag.hash_value() {
-        let lnode = LNode::new(key.into(), value.into(), this);
-        let key: *const K = lnode.key();
-        let value: *const V = lnode.value();
-        LNodeInsertResult::InsertedL(lnode, key, value, None)
-    }
-    else {
-        let this_flag = Flag::new_at_depth(this_hash, key_flag.depth()).unwrap();
-
-        let snode = SNode::new(key.into(), value.into());
-        let key: *const K = snode.key();
-        let value: *const V = snode.value();
-        LNodeInsertResult::InsertedC(cnode::lift_to_cnode_and_insert(this.into(), this_flag, snode.into(), key_flag), key, value, None)
+    match key_flag {
+        Some(key_flag) if this_hash != key_flag.hash_value() => {
+            let this_flag = Flag::new_at_depth(this_hash, key_flag.depth()).unwrap();
+
+            let snode = SNode::new(key.into(), value.into());
+            let key: *const K = snode.key();
+            let value: *const V = snode.value();
+            LNodeInsertResult::InsertedC(cnode::lift_to_cnode_and_insert(this.into(), this_flag, snode.into(), key_flag), key, value, None)
+        },
+        // Without a flag, every bit of the hash has led to this node, so the hashes must be equal
+        _ => {
+            let lnode = LNode::new(key.into(), value.into(), this);
+            let key: *const K = lnode.key();
+            let value: *const V = lnode.value();
+            LNodeInsertResult::InsertedL(lnode, key, value, None)
+        },
     }
 }
 
diff --git a/src/node/snode.rs b/src/node/snode.rs
index dba222e..82ff46e 100644
--- a/src/node/snode.rs
+++ b/src/node/snode.rs
@@ -58,7 +58,7 @@ where
         }
     }
     else {
-        lnode::lift_to_cnode_and_insert(LNodeNext::S(this.clone()), key, value, key_flag.unwrap()).into()
+        lnode::lift_to_cnode_and_insert(LNodeNext::S(this.clone()), key, value, key_flag).into()
     }
 }
 
-- 
2.43.0


From eb19f190c3fb031caaf93a46f0d7f5919b7ac2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:27 +0000
Subject: [PATCH 3/6] fix: keep the low bits of a hash wider than the hash word
 instead of panicking

---
 src/traits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traits.rs b/src/traits.rs
index 1aef9a0..a6b833c 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -1,6 +1,6 @@
 use crate::results::BitError;
 use alloc::fmt::Debug;
-use core::{convert::{TryFrom, TryInto}, hash::{Hash, Hasher}, mem, ops::*};
+use core::{convert::TryFrom, hash::{Hash, Hasher}, mem, ops::*};
 
 macro_rules! bit_count_one {
     ( $bit:expr) => {
@@ -256,7 +256,7 @@ macro_rules! hasher_bv_impl {
             fn hash(&self, value: &V) -> $type {
                 let mut hasher = H::default();
                 value.hash(&mut hasher);
-                hasher.finish().try_into().unwrap()
+                hasher.finish() as $type
             }
         }
     };
-- 
2.43.0


From 8187175293fe548c0cdf2efa8f41a8354f202860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 4/6] fix: replace, not duplicate, a collision list entry whose
 right counterpart is kept

---
 src/node/lnode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/lnode.rs b/src/node/lnode.rs
index 5b14b37..392a7f6 100644
--- a/src/node/lnode.rs
+++ b/src/node/lnode.rs
@@ -1091,7 +1091,7 @@ where
     match result {
         MapTransformResult::Unchanged(lr) => match next {
             LNodeJointTransformResult::UnchangedLR(rr) | LNodeJointTransformResult::UnchangedL(rr) => LNodeJointTransformResult::UnchangedL(reduce_op(&lr, &rr)),
-            LNodeJointTransformResult::UnchangedR(rr) => LNodeJointTransformResult::L(LNode::new(that.key().clone(), that.value().clone(), LNodeNext::L(this.clone())), reduce_op(&lr, &rr)),
+            LNodeJointTransformResult::UnchangedR(rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::S(that.clone())), reduce_op(&lr, &rr)),
             LNodeJointTransformResult::L(lnode, rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::L(lnode)), reduce_op(&lr, &rr)),
             LNodeJointTransformResult::S(snode, rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::S(snode)), reduce_op(&lr, &rr)),
             LNodeJointTransformResult::Removed(rr) => LNodeJointTransformResult::S(SNode::new(this.key.clone(), this.value.clone()), reduce_op(&lr, &rr)),
-- 
2.43.0


From ce6d9867fe50d86e8757068331802917232a6c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:54 +0000
Subject: [PATCH 5/6] fix: keep each entry's own right counterpart when joining
 two collision lists

---
 src/node/lnode.rs | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/node/lnode.rs b/src/node/lnode.rs
index 392a7f6..b3e9174 100644
--- a/src/node/lnode.rs
+++ b/src/node/lnode.rs
@@ -391,15 +391,17 @@ where
     LeftOp: Fn(&K, &V) -> MapTransformResult<V, ReduceT> + Clone + Send + Sync,
     RightOp: Fn(&K, &V) -> MapTransformResult<V, ReduceT> + Clone + Send + Sync,
 {
-    let mut next_node = None;
-
     let next = match &this.next {
         LNodeNext::L(lnode) => transform_with_transformed_lnode_impl(lnode, rights, reduce_op.clone(), both_op.clone(), left_op.clone(), right_op.clone()),
         LNodeNext::S(snode) => {
             match rights.iter().position(|key_value| *snode.key() == *key_value.0).map(|index| rights.swap_remove(index)) {
                 Some((right_key, right_value)) => {
-                    next_node = Some((right_key, right_value));
-                    snode::transform_with_transformed_snode_impl(snode, &SNode::new(right_key.clone(), right_value.clone()), reduce_op.clone(), both_op.clone(), left_op.clone(), right_op.clone())
+                    let right = SNode::new(right_key.clone(), right_value.clone());
+                    match snode::transform_with_transformed_snode_impl(snode, &right, reduce_op.clone(), both_op.clone(), left_op.clone(), right_op.clone()) {
+                        // The right list as a whole is not unchanged just because its entry for this key is
+                        LNodeJointTransformResult::UnchangedR(reduced) => LNodeJointTransformResult::S(right, reduced),
+                        next => next,
+                    }
                 },
                 None => match snode::transform(snode, left_op.clone()) {
                     SNodeTransformResult::Unchanged(reduced) => LNodeJointTransformResult::UnchangedL(reduced),
@@ -410,7 +412,9 @@ where
         },
     };
 
-    let result = match rights.iter().position(|key_value| this.key == *key_value.0).map(|index| rights.swap_remove(index)) {
+    let that = rights.iter().position(|key_value| this.key == *key_value.0).map(|index| rights.swap_remove(index));
+
+    let result = match that {
         Some((right_key, right_value)) => both_op.call(&this.key, &this.value, right_key, right_value),
         None => match left_op.call(&this.key, &this.value) {
             MapTransformResult::Unchanged(reduced) => MapJointTransformResult::UnchangedL(reduced),
@@ -419,7 +423,7 @@ where
         },
     };
 
-    joint_transform_with_joint_transformed_result(this, result, next_node, next, reduce_op)
+    joint_transform_with_joint_transformed_result(this, result, that, next, reduce_op)
 }
 
 pub(crate) unsafe fn transform_with_transmuted_lnode<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, M: HasherBv<H, K>, ReduceT, ReduceOp, BothOp, LeftOp, RightOp>(this: &Arc<LNode<K, V>>, right: &Arc<LNode<L, W>>, reduce_op: ReduceOp, both_op: MapTransform<ReduceT, BothOp>, left_op: MapTransform<ReduceT, LeftOp>, right_op: MapTransmute<ReduceT, RightOp>, depth: usize) -> MNodeTransformResult<H, F, K, V, M, ReduceT>
@@ -978,28 +982,28 @@ where
         MapJointTransformResult::UnchangedLR(lr) => match next {
             LNodeJointTransformResult::UnchangedLR(rr) => LNodeJointTransformResult::UnchangedLR(reduce_op(&lr, &rr)),
             LNodeJointTransformResult::UnchangedL(rr) => LNodeJointTransformResult::UnchangedL(reduce_op(&lr, &rr)),
-            LNodeJointTransformResult::UnchangedR(rr) => LNodeJointTransformResult::UnchangedR(reduce_op(&lr, &rr)),
+            LNodeJointTransformResult::UnchangedR(_rr) => panic!(), // Too difficult to really optimize over both sides for the time being
             LNodeJointTransformResult::L(lnode, rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::L(lnode)), reduce_op(&lr, &rr)),
             LNodeJointTransformResult::S(snode, rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::S(snode)), reduce_op(&lr, &rr)),
             LNodeJointTransformResult::Removed(rr) => LNodeJointTransformResult::S(SNode::new(this.key.clone(), this.value.clone()), reduce_op(&lr, &rr)),
         },
         MapJointTransformResult::UnchangedL(lr) => match next {
             LNodeJointTransformResult::UnchangedLR(rr) | LNodeJointTransformResult::UnchangedL(rr) => LNodeJointTransformResult::UnchangedL(reduce_op(&lr, &rr)),
-            LNodeJointTransformResult::UnchangedR(rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::S(SNode::new(that.as_ref().unwrap().0.clone(), that.as_ref().unwrap().1.clone()))), reduce_op(&lr, &rr)),
+            LNodeJointTransformResult::UnchangedR(_rr) => panic!(), // Too difficult to really optimize over both sides for the time being
             LNodeJointTransformResult::L(lnode, rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::L(lnode)), reduce_op(&lr, &rr)),
             LNodeJointTransformResult::S(snode, rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::S(snode)), reduce_op(&lr, &rr)),
             LNodeJointTransformResult::Removed(rr) => LNodeJointTransformResult::S(SNode::new(this.key.clone(), this.value.clone()), reduce_op(&lr, &rr)),
         },
         MapJointTransformResult::UnchangedR(lr) => match next {
-            LNodeJointTransformResult::UnchangedLR(rr) | LNodeJointTransformResult::UnchangedR(rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::S(SNode::new(that.as_ref().unwrap().0.clone(), that.as_ref().unwrap().1.clone()))), reduce_op(&lr, &rr)),
-            LNodeJointTransformResult::UnchangedL(rr) => LNodeJointTransformResult::L(LNode::new(that.as_ref().unwrap().0.clone(), that.as_ref().unwrap().1.clone(), this.next.clone()), reduce_op(&lr, &rr)),
+            LNodeJointTransformResult::UnchangedLR(rr) | LNodeJointTransformResult::UnchangedL(rr) => LNodeJointTransformResult::L(LNode::new(that.as_ref().unwrap().0.clone(), that.as_ref().unwrap().1.clone(), this.next.clone()), reduce_op(&lr, &rr)),
+            LNodeJointTransformResult::UnchangedR(_rr) => panic!(), // Too difficult to really optimize over both sides for the time being
             LNodeJointTransformResult::L(lnode, rr) => LNodeJointTransformResult::L(LNode::new(that.as_ref().unwrap().0.clone(), that.as_ref().unwrap().1.clone(), LNodeNext::L(lnode)), reduce_op(&lr, &rr)),
             LNodeJointTransformResult::S(snode, rr) => LNodeJointTransformResult::L(LNode::new(that.as_ref().unwrap().0.clone(), that.as_ref().unwrap().1.clone(), LNodeNext::S(snode)), reduce_op(&lr, &rr)),
-            LNodeJointTransformResult::Removed(rr) => LNodeJointTransformResult::UnchangedR(reduce_op(&lr, &rr)),
+            LNodeJointTransformResult::Removed(rr) => LNodeJointTransformResult::S(SNode::new(that.as_ref().unwrap().0.clone(), that.as_ref().unwrap().1.clone()), reduce_op(&lr, &rr)),
         },
         MapJointTransformResult::Transformed(lv, lr) => match next {
             LNodeJointTransformResult::UnchangedLR(rr) | LNodeJointTransformResult::UnchangedL(rr) => LNodeJointTransformResult::L(LNode::new(this.key().clone(), lv, this.next.clone()), reduce_op(&lr, &rr)),
-            LNodeJointTransformResult::UnchangedR(rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::S(SNode::new(that.as_ref().unwrap().0.clone(), that.as_ref().unwrap().1.clone()))), reduce_op(&lr, &rr)),
+            LNodeJointTransformResult::UnchangedR(_rr) => panic!(), // Too difficult to really optimize over both sides for the time being
             LNodeJointTransformResult::L(lnode, rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), lv, LNodeNext::L(lnode)), reduce_op(&lr, &rr)),
             LNodeJointTransformResult::S(snode, rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), lv, LNodeNext::S(snode)), reduce_op(&lr, &rr)),
             LNodeJointTransformResult::Removed(rr) => LNodeJointTransformResult::S(SNode::new(this.key.clone(), lv), reduce_op(&lr, &rr)),
@@ -1009,7 +1013,7 @@ where
                 LNodeNext::L(lnode) => LNodeJointTransformResult::L(lnode.clone(), reduce_op(&lr, &rr)),
                 LNodeNext::S(snode) => LNodeJointTransformResult::S(snode.clone(), reduce_op(&lr, &rr)),
             },
-            LNodeJointTransformResult::UnchangedR(rr) => LNodeJointTransformResult::S(SNode::new(that.as_ref().unwrap().0.clone(), that.as_ref().unwrap().1.clone()), reduce_op(&lr, &rr)),
+            LNodeJointTransformResult::UnchangedR(_rr) => panic!(), // Too difficult to really optimize over both sides for the time being
             LNodeJointTransformResult::L(lnode, rr) => LNodeJointTransformResult::L(lnode, reduce_op(&lr, &rr)),
             LNodeJointTransformResult::S(snode, rr) => LNodeJointTransformResult::S(snode, reduce_op(&lr, &rr)),
             LNodeJointTransformResult::Removed(rr) => LNodeJointTransformResult::Removed(reduce_op(&lr, &rr)),
-- 
2.43.0


From 4ea9044ec594171f83142a666b23646399d3e41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:19 +0000
Subject: [PATCH 6/6] fix: exchange the sides of constant joint transformations
 when flipping them

---
 src/transformations.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index a64ea93..2ff1d5d 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -41,8 +41,8 @@ impl <ReduceT: Clone, F: Clone> MapJointTransform<ReduceT, F> {
         match self {
             Self::Generic(f, flipped) => Self::Generic(f.clone(), !flipped),
             Self::UnchangedLR(r) => Self::UnchangedLR(r.clone()),
-            Self::UnchangedL(r) => Self::UnchangedL(r.clone()),
-            Self::UnchangedR(r) => Self::UnchangedR(r.clone()),
+            Self::UnchangedL(r) => Self::UnchangedR(r.clone()),
+            Self::UnchangedR(r) => Self::UnchangedL(r.clone()),
             Self::Removed(r) => Self::Removed(r.clone()),
         }
     }
@@ -114,8 +114,8 @@ impl <ReduceT: Clone, F: Clone> SetJointTransform<ReduceT, F> {
         match self {
             Self::Generic(f, flipped) => Self::Generic(f.clone(), !flipped),
             Self::UnchangedLR(r) => Self::UnchangedLR(r.clone()),
-            Self::UnchangedL(r) => Self::UnchangedL(r.clone()),
-            Self::UnchangedR(r) => Self::UnchangedR(r.clone()),
+            Self::UnchangedL(r) => Self::UnchangedR(r.clone()),
+            Self::UnchangedR(r) => Self::UnchangedL(r.clone()),
             Self::Removed(r) => Self::Removed(r.clone()),
         }
     }
-- 
2.43.0

