From f4480b6e85f8f434993177bb7a3dcfd6b280cd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 001/101] fix: inverted encoding simulators underflow for empty
 bound ranges

---
 src/encodings/card/simulators.rs | 2 +-
 src/encodings/pb/simulators.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encodings/card/simulators.rs b/src/encodings/card/simulators.rs
index a222162..f166cf0 100644
--- a/src/encodings/card/simulators.rs
+++ b/src/encodings/card/simulators.rs
@@ -53,7 +53,7 @@ where
     CE: Encode + 'static,
 {
     fn convert_encoding_range(&self, range: std::ops::Range<usize>) -> std::ops::Range<usize> {
-        let min = self.n_lits() - (range.end - 1);
+        let min = (self.n_lits() + 1).saturating_sub(range.end);
         let max = if self.n_lits() >= range.start {
             self.n_lits() - range.start + 1
         } else {
diff --git a/src/encodings/pb/simulators.rs b/src/encodings/pb/simulators.rs
index 180e205..f0eaaae 100644
--- a/src/encodings/pb/simulators.rs
+++ b/src/encodings/pb/simulators.rs
@@ -53,7 +53,7 @@ where
     PBE: Encode + 'static,
 {
     fn convert_encoding_range(&self, range: std::ops::Range<usize>) -> std::ops::Range<usize> {
-        let min = self.weight_sum() - (range.end - 1);
+        let min = (self.weight_sum() + 1).saturating_sub(range.end);
         let max = if self.weight_sum() >= range.start {
             self.weight_sum() - range.start + 1
         } else {
-- 
2.43.0


From 62d87054f759be16190f426ba11429f7af4ead60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 002/101] fix: double bounding over a range with unbounded
 start includes bound zero

---
 src/encodings/card/mod.rs | 2 +-
 src/encodings/pb/mod.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encodings/card/mod.rs b/src/encodings/card/mod.rs
index c3b846a..bf6a152 100644
--- a/src/encodings/card/mod.rs
+++ b/src/encodings/card/mod.rs
@@ -488,7 +488,7 @@ where
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
         std::ops::Bound::Excluded(b) => b + 1,
-        std::ops::Bound::Unbounded => 1,
+        std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
         std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.n_lits() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.n_lits() + 1),
diff --git a/src/encodings/pb/mod.rs b/src/encodings/pb/mod.rs
index a206e2a..e1bd156 100644
--- a/src/encodings/pb/mod.rs
+++ b/src/encodings/pb/mod.rs
@@ -536,7 +536,7 @@ where
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
         std::ops::Bound::Excluded(b) => b + 1,
-        std::ops::Bound::Unbounded => 1,
+        std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
         std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.weight_sum() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.weight_sum() + 1),
-- 
2.43.0


From 542e342d8fb10f53343144c6294f0a23e218f52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 003/101] fix: bound ranges ending at the maximum integer
 overflow when encoding

---
 src/encodings/card/mod.rs | 12 ++++++------
 src/encodings/pb/mod.rs   | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/encodings/card/mod.rs b/src/encodings/card/mod.rs
index bf6a152..0440a7b 100644
--- a/src/encodings/card/mod.rs
+++ b/src/encodings/card/mod.rs
@@ -455,10 +455,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
-        std::ops::Bound::Excluded(b) => b + 1,
+        std::ops::Bound::Excluded(b) => b.saturating_add(1),
         std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.n_lits()),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.n_lits()),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.n_lits()),
         std::ops::Bound::Unbounded => enc.n_lits(),
     }
@@ -471,10 +471,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => std::cmp::max(*b, 1),
-        std::ops::Bound::Excluded(b) => std::cmp::max(b + 1, 1),
+        std::ops::Bound::Excluded(b) => std::cmp::max(b.saturating_add(1), 1),
         std::ops::Bound::Unbounded => 1,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.n_lits() + 1),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.n_lits() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.n_lits() + 1),
         std::ops::Bound::Unbounded => enc.n_lits() + 1,
     }
@@ -487,10 +487,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
-        std::ops::Bound::Excluded(b) => b + 1,
+        std::ops::Bound::Excluded(b) => b.saturating_add(1),
         std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.n_lits() + 1),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.n_lits() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.n_lits() + 1),
         std::ops::Bound::Unbounded => enc.n_lits() + 1,
     }
diff --git a/src/encodings/pb/mod.rs b/src/encodings/pb/mod.rs
index e1bd156..5623149 100644
--- a/src/encodings/pb/mod.rs
+++ b/src/encodings/pb/mod.rs
@@ -503,10 +503,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
-        std::ops::Bound::Excluded(b) => b + 1,
+        std::ops::Bound::Excluded(b) => b.saturating_add(1),
         std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.weight_sum()),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.weight_sum()),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.weight_sum()),
         std::ops::Bound::Unbounded => enc.weight_sum(),
     }
@@ -519,10 +519,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => std::cmp::max(*b, 1),
-        std::ops::Bound::Excluded(b) => std::cmp::max(b + 1, 1),
+        std::ops::Bound::Excluded(b) => std::cmp::max(b.saturating_add(1), 1),
         std::ops::Bound::Unbounded => 1,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.weight_sum() + 1),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.weight_sum() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.weight_sum() + 1),
         std::ops::Bound::Unbounded => enc.weight_sum() + 1,
     }
@@ -535,10 +535,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
-        std::ops::Bound::Excluded(b) => b + 1,
+        std::ops::Bound::Excluded(b) => b.saturating_add(1),
         std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.weight_sum() + 1),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.weight_sum() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.weight_sum() + 1),
         std::ops::Bound::Unbounded => enc.weight_sum() + 1,
     }
-- 
2.43.0


From 7a8a43e80f880c9b976b71500050419ae602e042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 004/101] fix: re-encoding a binary adder does not re-emit its
 comparators

---
 src/encodings/pb/adder.rs | 61 +++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 34 deletions(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 4b4328d..0ff5e57 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -148,6 +148,31 @@ impl BinaryAdder {
             comparator: Vec::new(),
         });
     }
+
+    /// Iterates over all bits that might already be encoded
+    fn encoded_bits(&mut self) -> impl Iterator<Item = &mut Output> {
+        self.nodes
+            .iter_mut()
+            .flat_map(|node| match node {
+                Node::Full { sum, carry, .. } | Node::Half { sum, carry, .. } => [sum, carry],
+            })
+            .chain(
+                self.structure
+                    .iter_mut()
+                    .flat_map(|structure| structure.comparator.iter_mut()),
+            )
+            .flatten()
+    }
+
+    /// Resets the encoding status of the if direction
+    fn reset_if(&mut self) {
+        self.encoded_bits().for_each(|out| out.enc_if = false);
+    }
+
+    /// Resets the encoding status of the only-if direction
+    fn reset_only_if(&mut self) {
+        self.encoded_bits().for_each(|out| out.enc_only_if = false);
+    }
 }
 
 impl super::Encode for BinaryAdder {
@@ -169,23 +194,7 @@ impl super::BoundUpper for BinaryAdder {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize>,
     {
-        // reset previous encoding status
-        for node in &mut self.nodes {
-            if let Node::Full { sum: Some(out), .. } | Node::Half { sum: Some(out), .. } = node {
-                out.enc_if = false;
-                out.enc_only_if = false;
-            }
-            if let Node::Full {
-                carry: Some(out), ..
-            }
-            | Node::Half {
-                carry: Some(out), ..
-            } = node
-            {
-                out.enc_if = false;
-                out.enc_only_if = false;
-            }
-        }
+        self.reset_if();
         self.encode_ub_change(range, collector, var_manager)
     }
 
@@ -282,23 +291,7 @@ impl super::BoundLower for BinaryAdder {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize>,
     {
-        // reset previous encoding status
-        for node in &mut self.nodes {
-            if let Node::Full { sum: Some(out), .. } | Node::Half { sum: Some(out), .. } = node {
-                out.enc_if = false;
-                out.enc_only_if = false;
-            }
-            if let Node::Full {
-                carry: Some(out), ..
-            }
-            | Node::Half {
-                carry: Some(out), ..
-            } = node
-            {
-                out.enc_if = false;
-                out.enc_only_if = false;
-            }
-        }
+        self.reset_only_if();
         self.encode_lb_change(range, collector, var_manager)
     }
 
-- 
2.43.0


From b5474cc48876cd2193bfdd715dc03df03465fdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 005/101] fix: binary adder enforces stale bounds after adding
 inputs

---
 src/encodings/pb/adder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 0ff5e57..0a9c191 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -202,6 +202,9 @@ impl super::BoundUpper for BinaryAdder {
         if ub >= self.weight_sum() {
             return Ok(vec![]);
         }
+        if !self.lit_buffer.is_empty() {
+            return Err(EnforceError::NotEncoded);
+        }
         let Some(structure) = &self.structure else {
             return Err(EnforceError::NotEncoded);
         };
@@ -302,6 +305,9 @@ impl super::BoundLower for BinaryAdder {
         if lb == 0 {
             return Ok(vec![]);
         }
+        if !self.lit_buffer.is_empty() {
+            return Err(EnforceError::NotEncoded);
+        }
         let Some(structure) = &self.structure else {
             return Err(EnforceError::NotEncoded);
         };
-- 
2.43.0


From 929f7072aa6cc4237360065646c9f491fa4b40fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 006/101] fix: reserving variables for a binary adder indexes
 out of bounds

---
 src/encodings/pb/adder.rs | 35 ++---------------------------------
 1 file changed, 2 insertions(+), 33 deletions(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 0a9c191..89cc1e3 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -411,12 +411,8 @@ impl super::EncodeIncremental for BinaryAdder {
     fn reserve(&mut self, var_manager: &mut dyn ManageVars) {
         self.extend_structure();
 
-        if let Some(structure) = &self.structure {
-            for &o in &structure.outputs {
-                if let Some(Connection::Sum(node) | Connection::Carry(node)) = o {
-                    reserve(&mut self.nodes[..=node], var_manager);
-                }
-            }
+        for node in &mut self.nodes {
+            node.reserve(var_manager);
         }
     }
 }
@@ -858,33 +854,6 @@ where
     }
 }
 
-/// Reserves the variables for the last node in `nodes` recursively
-fn reserve(nodes: &mut [Node], var_manager: &mut dyn ManageVars) {
-    let (nodes, node) = nodes.split_at_mut(nodes.len());
-
-    let node = &mut node[0];
-    node.reserve(var_manager);
-
-    let mut recurse = |con: Connection| match con {
-        Connection::Input(_) => {}
-        Connection::Sum(node) | Connection::Carry(node) => {
-            reserve(&mut nodes[..=node], var_manager);
-        }
-    };
-
-    match node {
-        Node::Full { a, b, c, .. } => {
-            recurse(*a);
-            recurse(*b);
-            recurse(*c);
-        }
-        Node::Half { a, b, .. } => {
-            recurse(*a);
-            recurse(*b);
-        }
-    }
-}
-
 fn comparator_if<Col>(
     rhs: usize,
     output: Lit,
-- 
2.43.0


From 545f57bdfce0a1d09431e5ce4e98694df2772152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 007/101] fix: collecting weighted literals into encodings
 drops repeated literals

---
 src/encodings/pb/adder.rs      |  3 +--
 src/encodings/pb/dpw/mod.rs    |  3 +--
 src/encodings/pb/gte/mod.rs    |  3 +--
 src/encodings/pb/mod.rs        | 15 +++++++++++++++
 src/encodings/pb/simulators.rs | 10 ++++------
 5 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 89cc1e3..e61ea20 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -440,8 +440,7 @@ impl From<RsHashMap<Lit, usize>> for BinaryAdder {
 
 impl FromIterator<(Lit, usize)> for BinaryAdder {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = RsHashMap::from_iter(iter);
-        Self::from(lits)
+        Self::from(super::accumulate_weights(iter))
     }
 }
 
diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 150dbfa..9da5272 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -435,8 +435,7 @@ impl From<RsHashMap<Lit, usize>> for DynamicPolyWatchdog {
 
 impl FromIterator<(Lit, usize)> for DynamicPolyWatchdog {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = RsHashMap::from_iter(iter);
-        Self::from(lits)
+        Self::from(super::accumulate_weights(iter))
     }
 }
 
diff --git a/src/encodings/pb/gte/mod.rs b/src/encodings/pb/gte/mod.rs
index 8d29ab3..6f55ac4 100644
--- a/src/encodings/pb/gte/mod.rs
+++ b/src/encodings/pb/gte/mod.rs
@@ -368,8 +368,7 @@ impl From<RsHashMap<Lit, usize>> for GeneralizedTotalizer {
 
 impl FromIterator<(Lit, usize)> for GeneralizedTotalizer {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = RsHashMap::from_iter(iter);
-        Self::from(lits)
+        Self::from(super::accumulate_weights(iter))
     }
 }
 
diff --git a/src/encodings/pb/mod.rs b/src/encodings/pb/mod.rs
index 5623149..b8fc729 100644
--- a/src/encodings/pb/mod.rs
+++ b/src/encodings/pb/mod.rs
@@ -42,6 +42,7 @@ use crate::types::constraints::PbLbConstr;
 use crate::types::constraints::PbUbConstr;
 use crate::types::Clause;
 use crate::types::Lit;
+use crate::types::RsHashMap;
 use crate::utils::unreachable_err;
 
 use super::card;
@@ -496,6 +497,20 @@ where
     }
 }
 
+/// Collects weighted literals, accumulating the weights of repeated literals
+fn accumulate_weights<I>(iter: I) -> RsHashMap<Lit, usize>
+where
+    I: IntoIterator<Item = (Lit, usize)>,
+{
+    let iter = iter.into_iter();
+    let mut lits = RsHashMap::default();
+    lits.reserve(iter.size_hint().0);
+    for (lit, weight) in iter {
+        *lits.entry(lit).or_default() += weight;
+    }
+    lits
+}
+
 fn prepare_ub_range<Enc, R>(enc: &Enc, range: R) -> std::ops::Range<usize>
 where
     Enc: Encode,
diff --git a/src/encodings/pb/simulators.rs b/src/encodings/pb/simulators.rs
index f0eaaae..2237034 100644
--- a/src/encodings/pb/simulators.rs
+++ b/src/encodings/pb/simulators.rs
@@ -82,8 +82,7 @@ where
     PBE: Encode + From<RsHashMap<Lit, usize>> + 'static,
 {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = iter.into_iter().collect();
-        Self::from(lits)
+        Self::from(super::accumulate_weights(iter))
     }
 }
 
@@ -92,7 +91,7 @@ where
     PBE: Encode + Extend<(Lit, usize)> + 'static,
 {
     fn extend<T: IntoIterator<Item = (Lit, usize)>>(&mut self, iter: T) {
-        let lits: RsHashMap<Lit, usize> = iter.into_iter().map(|(l, w)| (!l, w)).collect();
+        let lits = super::accumulate_weights(iter.into_iter().map(|(l, w)| (!l, w)));
         let ws = lits.iter().fold(0, |ws, (_, w)| ws + w);
         self.pb_enc.extend(lits);
         self.weight_sum += ws;
@@ -551,8 +550,7 @@ where
     LBE: BoundLower + From<RsHashMap<Lit, usize>> + 'static,
 {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = iter.into_iter().collect();
-        Self::from(lits)
+        Self::from(super::accumulate_weights(iter))
     }
 }
 
@@ -562,7 +560,7 @@ where
     LBE: BoundLower + Extend<(Lit, usize)> + 'static,
 {
     fn extend<T: IntoIterator<Item = (Lit, usize)>>(&mut self, iter: T) {
-        let lits: RsHashMap<Lit, usize> = iter.into_iter().collect();
+        let lits = super::accumulate_weights(iter);
         self.ub_enc.extend(lits.clone());
         self.lb_enc.extend(lits);
     }
-- 
2.43.0


From 33566b150dca240a57b87c79cd48cc7913aeaf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 008/101] fix: dynamic polynomial watchdog enforces bounds on
 outputs that are not encoded

---
 src/encodings/pb/dpw/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 9da5272..3a616eb 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -835,8 +835,17 @@ fn enforce_ub(dpw: &Structure, ub: usize, tot_db: &totdb::Db) -> Result<Vec<Lit>
     if oidx >= tot_db[dpw.root()].max_val() {
         return Ok(vec![]);
     }
-    let Some(&olit) = tot_db[dpw.root()].lit(oidx + 1) else {
-        return Err(EnforceError::NotEncoded);
+    let olit = match &tot_db[dpw.root()] {
+        totdb::Node::Leaf(lit) => *lit,
+        // the output literal needs to be encoded, it might only be reserved
+        totdb::Node::Unit(node) => match node.lits[oidx] {
+            totdb::LitData::Lit {
+                lit,
+                semantics: Some(semantics),
+            } if semantics.has_if() => lit,
+            _ => return Err(EnforceError::NotEncoded),
+        },
+        totdb::Node::General(_) | totdb::Node::Dummy => return Err(EnforceError::NotEncoded),
     };
     let mut assumps = vec![!olit];
     // inputs <= enforced_weight at this stage
-- 
2.43.0


From 4082ec10cd227026aeab00fe3b7a3035d31198a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 009/101] fix: generalized totalizer skips reachable values
 while inputs are missing from the tree

---
 src/encodings/pb/gte/mod.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/encodings/pb/gte/mod.rs b/src/encodings/pb/gte/mod.rs
index 6f55ac4..5d2e624 100644
--- a/src/encodings/pb/gte/mod.rs
+++ b/src/encodings/pb/gte/mod.rs
@@ -126,6 +126,18 @@ impl GeneralizedTotalizer {
         }
     }
 
+    /// Gets the next higher output value of the tree, ignoring literals that are not in the tree
+    fn next_higher_output(&self, val: usize) -> usize {
+        if let Some(con) = self.root {
+            self.db[con.id]
+                .vals(con.rev_map_round_up(val + 1)..)
+                .next()
+                .map_or(val + 1, |val| con.map(val))
+        } else {
+            val + 1
+        }
+    }
+
     /// Gets the depth of the encoding, i.e., the longest path from the root to a leaf
     #[must_use]
     pub fn depth(&self) -> usize {
@@ -203,20 +215,21 @@ impl super::Encode for GeneralizedTotalizer {
     }
 
     fn next_higher(&self, val: usize) -> usize {
-        if let Some(con) = self.root {
-            self.db[con.id]
-                .vals(con.rev_map_round_up(val + 1)..)
-                .next()
-                .map_or(val + 1, |val| con.map(val))
-        } else {
-            val + 1
+        if !self.lit_buffer.is_empty() {
+            // not all inputs are part of the tree yet
+            return val + 1;
         }
+        self.next_higher_output(val)
     }
 
     fn next_lower(&self, val: usize) -> usize {
         if val == 0 {
             return 0;
         }
+        if !self.lit_buffer.is_empty() {
+            // not all inputs are part of the tree yet
+            return val - 1;
+        }
         if let Some(con) = self.root {
             return self.db[con.id]
                 .vals(con.offset()..con.rev_map_round_up(val))
@@ -437,7 +450,7 @@ impl super::cert::BoundUpper for GeneralizedTotalizer {
         }
         let mut enc = Self::from_iter(lits);
         enc.encode_ub_cert(ub..=ub, collector, var_manager, proof)?;
-        let mut val = enc.next_higher(ub);
+        let mut val = enc.next_higher_output(ub);
         for unit in enc
             .enforce_ub(ub)
             .expect("should have caught special case before here")
@@ -470,7 +483,7 @@ impl super::cert::BoundUpper for GeneralizedTotalizer {
                 )?;
                 #[cfg(feature = "verbose-proofs")]
                 proof.equals(&unit_cl, Some(unit_id.into()))?;
-                val = enc.next_higher(val);
+                val = enc.next_higher_output(val);
                 unit_id
             };
             collector.add_cert_clause(unit_cl, unit_id)?;
-- 
2.43.0


From 53ca90993127ff3456ea39013d4234de0d56e8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 010/101] fix: encoding literals without weight panics

---
 src/encodings/pb/adder.rs   | 1 -
 src/encodings/pb/dpw/mod.rs | 8 +++++++-
 src/encodings/pb/gte/mod.rs | 5 +++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index e61ea20..bb8b30c 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -74,7 +74,6 @@ impl BinaryAdder {
 
         // Add new input literals into buckets
         for (lit, weight) in self.lit_buffer.drain() {
-            debug_assert_ne!(weight, 0);
             self.weight_sum += weight;
             let max_bucket = (usize::BITS - weight.leading_zeros()) as usize;
             if max_bucket >= buckets.len() {
diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 3a616eb..4d74970 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -100,6 +100,10 @@ impl DynamicPolyWatchdog {
                 "cannot add inputs after building the encoding",
             ));
         }
+        if weight == 0 {
+            // literals without weight do not influence the sum
+            return Ok(());
+        }
         if let Some(lweight) = self.in_lits.get_mut(&lit) {
             *lweight += weight;
         } else {
@@ -416,7 +420,9 @@ impl crate::encodings::EncodeStats for DynamicPolyWatchdog {
 }
 
 impl From<RsHashMap<Lit, usize>> for DynamicPolyWatchdog {
-    fn from(lits: RsHashMap<Lit, usize>) -> Self {
+    fn from(mut lits: RsHashMap<Lit, usize>) -> Self {
+        // literals without weight do not influence the sum
+        lits.retain(|_, w| *w > 0);
         let weight_sum = lits.iter().fold(0, |sum, (_, w)| sum + *w);
         let mut db = totdb::Db::default();
         let weight_queue = lit_weight_queue(lits.clone().into_iter(), &mut db);
diff --git a/src/encodings/pb/gte/mod.rs b/src/encodings/pb/gte/mod.rs
index 5d2e624..679c725 100644
--- a/src/encodings/pb/gte/mod.rs
+++ b/src/encodings/pb/gte/mod.rs
@@ -88,7 +88,8 @@ impl GeneralizedTotalizer {
                 .lit_buffer
                 .iter()
                 .filter_map(|(&l, &w)| {
-                    if w <= max_weight {
+                    // literals without weight do not influence the sum
+                    if w > 0 && w <= max_weight {
                         if w > self.max_leaf_weight {
                             self.max_leaf_weight = w;
                         }
@@ -121,8 +122,8 @@ impl GeneralizedTotalizer {
                     cons.push(con);
                 }
                 self.root = Some(self.db.merge_balanced(&cons).unwrap());
-                self.lit_buffer.retain(|_, w| *w > max_weight);
             }
+            self.lit_buffer.retain(|_, w| *w > max_weight);
         }
     }
 
-- 
2.43.0


From f0696a2169fbde123bb1412e2acd803e8b836d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 011/101] fix: encoding both bounds of a binary adder does not
 re-encode

---
 src/encodings/pb/adder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index bb8b30c..2695abd 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -398,8 +398,8 @@ impl super::BoundBoth for BinaryAdder {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize> + Clone,
     {
-        self.encode_ub_change(range.clone(), collector, var_manager)?;
-        self.encode_lb_change(range, collector, var_manager)?;
+        super::BoundUpper::encode_ub(self, range.clone(), collector, var_manager)?;
+        super::BoundLower::encode_lb(self, range, collector, var_manager)?;
         Ok(())
     }
 }
-- 
2.43.0


From 8d26ef393016610a5b08c543ab264970f7fc83cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 012/101] fix: hardening the output range of the dynamic
 polynomial watchdog excludes allowed values

---
 src/encodings/pb/dpw/mod.rs | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 4d74970..6d13b6b 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -15,6 +15,7 @@
 
 use std::num::NonZeroU8;
 use std::num::NonZeroUsize;
+use std::ops::Bound;
 
 use crate::encodings::nodedb::NodeById;
 use crate::encodings::nodedb::NodeCon;
@@ -183,10 +184,23 @@ impl DynamicPolyWatchdog {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize>,
     {
-        let range = super::prepare_ub_range(self, range);
+        let range = (match range.start_bound() {
+            Bound::Included(b) => *b,
+            Bound::Excluded(b) => b.saturating_add(1),
+            Bound::Unbounded => 0,
+        })..(match range.end_bound() {
+            // one value more than for upper bound ranges, since the maximum sum might be allowed
+            Bound::Included(b) => std::cmp::min(*b, self.weight_sum) + 1,
+            Bound::Excluded(b) => std::cmp::min(*b, self.weight_sum + 1),
+            Bound::Unbounded => self.weight_sum + 1,
+        });
+        if range.is_empty() {
+            return Ok(());
+        }
         if let Some(structure) = &self.structure {
             if self.is_max_precision() {
-                let output_weight = 1 << (structure.output_power());
+                let output_weight =
+                    (1 << structure.output_power()) * std::cmp::max(structure.prec_div, 1);
                 let range = range.start / output_weight..range.end.div_ceil(output_weight);
                 let root = &self.db[structure.root()];
                 // positively harden lower bound
@@ -200,21 +214,32 @@ impl DynamicPolyWatchdog {
                         .filter_map(|val| root.lit(val).map(|&olit| crate::clause![!olit])),
                 )?;
             } else {
-                let idx_offset = (crate::utils::digits(structure.prec_div, 2) - 1) as usize;
+                // the lowest levels might not have a bottom bucket
+                let skipped = structure.tares.len() + 1 - structure.bottom_buckets.len();
+                let idx_offset =
+                    (crate::utils::digits(structure.prec_div, 2) - 1) as usize + skipped;
                 for (idx, &bottom) in structure.bottom_buckets.iter().rev().enumerate() {
                     let div = 1usize << (idx + idx_offset);
-                    let range = range.start / div..range.end.div_ceil(div);
+                    // all but the topmost bucket contain a tare
+                    let n_tares = usize::from(idx + 1 < structure.bottom_buckets.len());
                     let top_con = crate::utils::unreachable_none!(self.db[bottom].left());
                     debug_assert_eq!(top_con.divisor(), 1);
                     let top = &self.db[top_con.id];
+                    // the value of the bucket if everything outside of it is true
+                    let n_inputs = self.db.con_len(top_con) - n_tares;
+                    let min_val = range
+                        .start
+                        .saturating_sub(self.weight_sum - n_inputs * div)
+                        .div_ceil(div);
+                    let max_val = (range.end - 1) / div + n_tares;
                     // positively harden lower bound
                     collector.extend_clauses(
-                        top.vals(..=top_con.rev_map(range.start))
+                        top.vals(..=top_con.rev_map(min_val))
                             .filter_map(|val| top.lit(val).map(|&olit| crate::clause![olit])),
                     )?;
                     // negatively harden upper bound
                     collector.extend_clauses(
-                        top.vals(top_con.rev_map_round_up(range.end)..)
+                        top.vals(top_con.rev_map_round_up(max_val + 1)..)
                             .filter_map(|val| top.lit(val).map(|&olit| crate::clause![!olit])),
                     )?;
                 }
-- 
2.43.0


From d08f36383e90d15619917b9bfb95c08b76a3b427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 013/101] fix: dynamic polynomial watchdog mishandles a single
 literal, empty precisions and precision zero

---
 src/encodings/pb/dpw/mod.rs | 59 +++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 6d13b6b..891057c 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -134,7 +134,9 @@ impl DynamicPolyWatchdog {
         if !(divisor <= 1 || divisor.is_power_of_two()) {
             return Err(PrecisionError::NotPow2);
         }
-        if self.structure.is_some() && divisor > self.prec_div {
+        // a divisor of zero also stands for full precision
+        let divisor = divisor.max(1);
+        if self.structure.is_some() && divisor > self.prec_div.max(1) {
             return Err(PrecisionError::PrecisionDecreased);
         }
         self.prec_div = divisor;
@@ -163,6 +165,19 @@ impl DynamicPolyWatchdog {
         self.weight_queue.is_empty()
     }
 
+    /// Checks whether there are weights that the encoding still has to be extended with for the set
+    /// precision
+    fn has_unencoded_weights(&self) -> bool {
+        matches!(self.weight_queue.last_key_value(), Some((weight, _)) if *weight >= self.prec_div)
+    }
+
+    /// Gets the ratio between the unit that the structure counts in and the unit of bounds at the
+    /// set precision. This is larger than one if no weights require a higher precision than the
+    /// structure has.
+    fn prec_ratio(&self, structure: &Structure) -> usize {
+        structure.prec_div.max(1) / self.prec_div.max(1)
+    }
+
     /// Given a range of output values to limit the encoding to, returns additional clauses that
     /// "shrink" the encoding through hardening
     ///
@@ -300,7 +315,7 @@ impl super::EncodeIncremental for DynamicPolyWatchdog {
         if self.in_lits.len() <= 1 {
             return;
         }
-        if self.structure.is_none() {
+        if self.structure.is_none() && self.has_unencoded_weights() {
             self.structure = Some(build_structure(
                 &mut self.weight_queue,
                 self.prec_div,
@@ -336,25 +351,25 @@ impl super::BoundUpper for DynamicPolyWatchdog {
             return Ok(vec![]);
         }
         if let Some(structure) = &self.structure {
-            if !self.weight_queue.is_empty()
-                && self.weight_queue.iter().next_back().unwrap().0 >= &self.prec_div
-            {
+            if self.has_unencoded_weights() {
                 return Err(EnforceError::NotEncoded);
             }
             debug_assert!(structure.prec_div >= self.prec_div);
-            let ub = ub
-                / 2_usize.pow(
-                    crate::utils::digits(structure.prec_div, 2)
-                        - crate::utils::digits(self.prec_div, 2),
-                );
-            enforce_ub(structure, ub, &self.db)
+            enforce_ub(structure, ub / self.prec_ratio(structure), &self.db)
         } else {
             if self.in_lits.len() > 1 {
-                return Err(EnforceError::NotEncoded);
+                return if self.has_unencoded_weights() {
+                    Err(EnforceError::NotEncoded)
+                } else {
+                    // All weights are zero at the set precision
+                    Ok(vec![])
+                };
             }
-            debug_assert_eq!(self.in_lits.len(), 1);
-            let (l, w) = self.in_lits.iter().next().unwrap();
-            Ok(if *w <= ub * std::cmp::min(self.prec_div, 1) {
+            // Empty encodings are trivially bounded
+            let Some((l, w)) = self.in_lits.iter().next() else {
+                return Ok(vec![]);
+            };
+            Ok(if *w / self.prec_div.max(1) <= ub {
                 vec![]
             } else {
                 vec![-(*l)]
@@ -365,7 +380,8 @@ impl super::BoundUpper for DynamicPolyWatchdog {
     fn coarse_ub(&self, ub: usize) -> usize {
         match &self.structure {
             Some(structure) => {
-                let output_weight = 1 << (structure.output_power());
+                let output_weight =
+                    (1 << structure.output_power()) * self.prec_ratio(structure);
                 if output_weight == 1 {
                     return ub;
                 }
@@ -395,8 +411,9 @@ impl super::BoundUpperIncremental for DynamicPolyWatchdog {
             return Ok(());
         }
         let n_vars_before = var_manager.n_used();
+        let has_unencoded_weights = self.has_unencoded_weights();
         let mut fresh = false;
-        if self.structure.is_none() && !self.in_lits.is_empty() {
+        if self.structure.is_none() && self.has_unencoded_weights() {
             fresh = true;
             self.structure = Some(build_structure(
                 &mut self.weight_queue,
@@ -408,10 +425,7 @@ impl super::BoundUpperIncremental for DynamicPolyWatchdog {
         }
         if let Some(structure) = &mut self.structure {
             let n_clauses_before = collector.n_clauses();
-            if !fresh
-                && !self.weight_queue.is_empty()
-                && self.weight_queue.iter().next_back().unwrap().0 >= &self.prec_div
-            {
+            if !fresh && has_unencoded_weights {
                 // precision has been increased, need to extend encoding
                 let new_struct = build_structure(
                     &mut self.weight_queue,
@@ -422,7 +436,8 @@ impl super::BoundUpperIncremental for DynamicPolyWatchdog {
                 );
                 merge_structures(structure, new_struct, &mut self.db, collector, var_manager)?;
             }
-            let output_weight = 1 << (structure.output_power());
+            let output_weight = (1 << structure.output_power())
+                * (structure.prec_div.max(1) / self.prec_div.max(1));
             let output_range = (range.start / output_weight)..=((range.end - 1) / output_weight);
             for oidx in output_range {
                 encode_output(structure, oidx, &mut self.db, collector, var_manager)?;
-- 
2.43.0


From 373bd4d5c0732027b6fd1e02507adad2432cb995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 014/101] fix: constraints are evaluated wrongly under partial
 assignments

---
 src/types/constraints.rs | 64 ++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 39 deletions(-)

diff --git a/src/types/constraints.rs b/src/types/constraints.rs
index 121fca5..9291b13 100644
--- a/src/types/constraints.rs
+++ b/src/types/constraints.rs
@@ -882,18 +882,19 @@ impl CardConstraint {
     pub fn evaluate(&self, assign: &super::Assignment) -> TernaryVal {
         let range = self
             .iter()
-            .fold(0..0, |rng, &lit| match assign.lit_value(lit) {
-                TernaryVal::True => rng.start + 1..rng.end + 1,
+            .fold(0..=0, |rng, &lit| match assign.lit_value(lit) {
+                TernaryVal::True => rng.start() + 1..=rng.end() + 1,
                 TernaryVal::False => rng,
-                TernaryVal::DontCare => rng.start..rng.end + 1,
+                TernaryVal::DontCare => *rng.start()..=rng.end() + 1,
             });
-        if range.contains(&self.bound()) {
-            return TernaryVal::DontCare;
-        }
         match self {
-            CardConstraint::Ub(CardUbConstr { b, .. }) => (range.start <= *b).into(),
-            CardConstraint::Lb(CardLbConstr { b, .. }) => (range.start >= *b).into(),
-            CardConstraint::Eq(CardEqConstr { b, .. }) => (range.start == *b).into(),
+            CardConstraint::Ub(CardUbConstr { b, .. }) if range.end() <= b => TernaryVal::True,
+            CardConstraint::Ub(CardUbConstr { b, .. }) if range.start() > b => TernaryVal::False,
+            CardConstraint::Lb(CardLbConstr { b, .. }) if range.start() >= b => TernaryVal::True,
+            CardConstraint::Lb(CardLbConstr { b, .. }) if range.end() < b => TernaryVal::False,
+            CardConstraint::Eq(CardEqConstr { b, .. }) if range == (*b..=*b) => TernaryVal::True,
+            CardConstraint::Eq(CardEqConstr { b, .. }) if !range.contains(b) => TernaryVal::False,
+            _ => TernaryVal::DontCare,
         }
     }
 }
@@ -1617,38 +1618,23 @@ impl PbConstraint {
     pub fn evaluate(&self, assign: &super::Assignment) -> TernaryVal {
         let range = self
             .iter()
-            .fold(0..0, |rng, &(lit, coeff)| match assign.lit_value(lit) {
-                TernaryVal::True => rng.start + coeff..rng.end + coeff,
+            .fold(0..=0, |rng, &(lit, coeff)| match assign.lit_value(lit) {
+                TernaryVal::True => rng.start() + coeff..=rng.end() + coeff,
                 TernaryVal::False => rng,
-                TernaryVal::DontCare => rng.start..rng.end + coeff,
+                TernaryVal::DontCare => *rng.start()..=rng.end() + coeff,
             });
-        match (isize::try_from(range.start), isize::try_from(range.end)) {
-            (Ok(start), Ok(end)) => {
-                if (start..end).contains(&self.bound()) {
-                    return TernaryVal::DontCare;
-                }
-                match self {
-                    PbConstraint::Ub(PbUbConstr { b, .. }) => (start <= *b).into(),
-                    PbConstraint::Lb(PbLbConstr { b, .. }) => (start >= *b).into(),
-                    PbConstraint::Eq(PbEqConstr { b, .. }) => (start == *b).into(),
-                }
-            }
-            (Ok(start), Err(_)) => match self {
-                PbConstraint::Ub(PbUbConstr { b, .. }) => {
-                    if (start..).contains(b) {
-                        return TernaryVal::DontCare;
-                    }
-                    TernaryVal::True
-                }
-                PbConstraint::Lb(PbLbConstr { b, .. }) | PbConstraint::Eq(PbEqConstr { b, .. }) => {
-                    if (start..).contains(b) {
-                        return TernaryVal::DontCare;
-                    }
-                    TernaryVal::False
-                }
-            },
-            (Err(_), Err(_)) => matches!(self, PbConstraint::Lb(_)).into(),
-            (Err(_), Ok(_)) => unreachable!(), // since end >= start
+        // the sum is never negative
+        let Ok(bound) = usize::try_from(self.bound()) else {
+            return matches!(self, PbConstraint::Lb(_)).into();
+        };
+        match self {
+            PbConstraint::Ub(_) if *range.end() <= bound => TernaryVal::True,
+            PbConstraint::Ub(_) if *range.start() > bound => TernaryVal::False,
+            PbConstraint::Lb(_) if *range.start() >= bound => TernaryVal::True,
+            PbConstraint::Lb(_) if *range.end() < bound => TernaryVal::False,
+            PbConstraint::Eq(_) if range == (bound..=bound) => TernaryVal::True,
+            PbConstraint::Eq(_) if !range.contains(&bound) => TernaryVal::False,
+            _ => TernaryVal::DontCare,
         }
     }
 }
-- 
2.43.0


From e24404e77e78689233723a9651fe3e7a50f421f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 015/101] fix: inverting a trivial cardinality upper bound
 underflows

---
 src/types/constraints.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/types/constraints.rs b/src/types/constraints.rs
index 9291b13..e0ca531 100644
--- a/src/types/constraints.rs
+++ b/src/types/constraints.rs
@@ -1021,7 +1021,8 @@ impl CardUbConstr {
         let length = self.lits.len();
         CardLbConstr {
             lits: self.lits,
-            b: length - self.b,
+            // bounds larger than the number of literals are trivially satisfied
+            b: length.saturating_sub(self.b),
         }
     }
 
-- 
2.43.0


From dfc4f8a8d3c7673b51133df5fdff34b3517073bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 016/101] fix: equality constraints treat literals without
 weight as assigned

---
 src/types/constraints.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/types/constraints.rs b/src/types/constraints.rs
index e0ca531..3353e87 100644
--- a/src/types/constraints.rs
+++ b/src/types/constraints.rs
@@ -769,7 +769,7 @@ impl CardConstraint {
         match self {
             CardConstraint::Ub(constr) => constr.is_tautology(),
             CardConstraint::Lb(constr) => constr.is_tautology(),
-            CardConstraint::Eq(_) => false,
+            CardConstraint::Eq(constr) => constr.is_tautology(),
         }
     }
 
@@ -1158,6 +1158,12 @@ impl CardEqConstr {
         )
     }
 
+    /// Checks if the constraint is always satisfied
+    #[must_use]
+    pub fn is_tautology(&self) -> bool {
+        self.b == 0 && self.lits.is_empty()
+    }
+
     /// Checks if the constraint is unsatisfiable
     #[must_use]
     pub fn is_unsat(&self) -> bool {
@@ -1399,7 +1405,7 @@ impl PbConstraint {
         match self {
             PbConstraint::Ub(constr) => constr.is_tautology(),
             PbConstraint::Lb(constr) => constr.is_tautology(),
-            PbConstraint::Eq(_) => false,
+            PbConstraint::Eq(constr) => constr.is_tautology(),
         }
     }
 
@@ -2068,6 +2074,12 @@ impl PbEqConstr {
         }
     }
 
+    /// Checks if the constraint is always satisfied
+    #[must_use]
+    pub fn is_tautology(&self) -> bool {
+        self.b == 0 && self.weight_sum == 0
+    }
+
     /// Checks if the constraint is unsatisfiable
     ///
     /// This only checks whether the bound is smaller than the sum of weights, not if a subset sum
@@ -2086,7 +2098,8 @@ impl PbEqConstr {
         if self.b < 0 {
             return false;
         }
-        self.b.unsigned_abs() == self.weight_sum
+        // literals with a coefficient of zero are not assigned
+        self.b.unsigned_abs() == self.weight_sum && self.lits.iter().all(|(_, coeff)| *coeff > 0)
     }
 
     /// Checks if the constraint assigns all literals to false
@@ -2095,7 +2108,8 @@ impl PbEqConstr {
         if self.b < 0 {
             return false;
         }
-        self.b.unsigned_abs() == 0
+        // literals with a coefficient of zero are not assigned
+        self.b.unsigned_abs() == 0 && self.lits.iter().all(|(_, coeff)| *coeff > 0)
     }
 
     /// Gets the unit weight of the constraint, if it exists
-- 
2.43.0


From 254aee9b964159789cc45b63288d12c8323d0cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 017/101] fix: encoding equalities with uniform weights not
 dividing the bound panics

---
 src/types/constraints.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/types/constraints.rs b/src/types/constraints.rs
index 3353e87..4e8481d 100644
--- a/src/types/constraints.rs
+++ b/src/types/constraints.rs
@@ -2089,7 +2089,12 @@ impl PbEqConstr {
         if self.b < 0 {
             return true;
         }
-        self.b.unsigned_abs() > self.weight_sum
+        let b = self.b.unsigned_abs();
+        // sums over equal weights are multiples of the weight
+        b > self.weight_sum
+            || self
+                .find_unit_weight()
+                .is_some_and(|weight| weight > 0 && b % weight != 0)
     }
 
     /// Checks if the constraint assigns all literals to true
-- 
2.43.0


From 8517fa3038d153381ce6a6281553b2be0dcc9497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 018/101] fix: implication of a literal by a tautological upper
 bound is wrong

---
 src/encodings/atomics.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/encodings/atomics.rs b/src/encodings/atomics.rs
index 90288dc..2c47112 100644
--- a/src/encodings/atomics.rs
+++ b/src/encodings/atomics.rs
@@ -132,9 +132,11 @@ pub fn card_impl_lit(card: &CardConstraint, lit: Lit) -> PbConstraint {
     match card {
         CardConstraint::Ub(c) => {
             let (lits, bound) = c.decompose_ref();
-            let bound = 2 * lits.len() - bound - 1;
+            // for tautologies, the literal has to be implied
+            let weight = std::cmp::max(lits.len(), bound + 1);
+            let bound = lits.len() + weight - bound - 1;
             let mut lits: Vec<_> = lits.iter().map(|lit| (!*lit, 1)).collect();
-            lits.push((!lit, lits.len()));
+            lits.push((!lit, weight));
             PbConstraint::new_ub_unsigned(
                 lits,
                 isize::try_from(bound).expect("cannot handle bounds larger than `isize::MAX`"),
@@ -209,9 +211,11 @@ pub fn pb_impl_lit(pb: &PbConstraint, lit: Lit) -> PbConstraint {
             let ws = isize::try_from(pb.weight_sum())
                 .expect("cannot handle sums of weight larger than `isize::MAX`");
             let (lits, bound) = c.decompose_ref();
-            let bound = 2 * ws - bound - 1;
+            // for tautologies, the literal has to be implied
+            let weight = std::cmp::max(ws, bound + 1);
+            let bound = ws + weight - bound - 1;
             let mut lits: Vec<_> = lits.iter().map(|(lit, w)| (!*lit, *w)).collect();
-            lits.push((!lit, pb.weight_sum()));
+            lits.push((!lit, weight.unsigned_abs()));
             PbConstraint::new_ub_unsigned(lits, bound)
         }
         PbConstraint::Lb(c) => {
-- 
2.43.0


From 4d0b97d16746c499f3d3dba504ee4b82ffe7a097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 019/101] fix: literals of the highest variable cannot be
 created

---
 src/types/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index 6b59c21..79ac74e 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -366,7 +366,7 @@ impl Lit {
     /// If `idx > Var::MAX_IDX`.
     #[must_use]
     pub const fn new(idx: u32, negated: bool) -> Lit {
-        assert!(idx < Var::MAX_IDX, "variable index too high");
+        assert!(idx <= Var::MAX_IDX, "variable index too high");
         Lit {
             lidx: Lit::represent(idx, negated),
         }
-- 
2.43.0


From 318c29861ff0b9e25158237cac1179cd705f80e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:54 +0000
Subject: [PATCH 020/101] fix: consistent value lines are refused and
 conflicting ones accepted

Conflicts were detected by the value of the literal, not of its variable,
so that repeating a negated literal was refused, and a literal that
contradicts an earlier one was accepted.
---
 src/types/mod.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index 79ac74e..f5de13b 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -1041,10 +1041,7 @@ impl Assignment {
             }
 
             let literal = Lit::from_ipasir(number)?;
-            let val = self.lit_value(literal);
-            if val == TernaryVal::True && literal.is_neg()
-                || val == TernaryVal::False && literal.is_pos()
-            {
+            if self.lit_value(literal) == TernaryVal::False {
                 // Catch conflicting assignments
                 return Err(InvalidVLine::ConflictingAssignment(literal.var()));
             }
@@ -1081,8 +1078,7 @@ impl Assignment {
                         1,
                     )
                 })?;
-            let val = self.lit_value(lit);
-            if val == TernaryVal::True && lit.is_neg() || val == TernaryVal::False && lit.is_pos() {
+            if self.lit_value(lit) == TernaryVal::False {
                 // Catch conflicting assignments
                 return Err(InvalidVLine::ConflictingAssignment(lit.var()));
             }
-- 
2.43.0


From 2decd32aac6727ffacaa1231a60cd623f0cacbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:06 +0000
Subject: [PATCH 021/101] fix: value line starting with a non-ASCII character
 panics

---
 src/types/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index f5de13b..24764bc 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -989,13 +989,13 @@ impl Assignment {
         if lines.is_empty() {
             return Err(InvalidVLine::EmptyLine);
         }
-        // determine line format
+        // determine line format (the first character might not be ASCII)
+        let values = lines.get(1..).unwrap_or_default().trim();
         let format = if lines.contains('x') {
             VLineFormat::PbComp
-        } else if !lines[1..].trim().contains(' ')
-            && lines[1..].trim() != "0"
-            && lines[1..]
-                .trim()
+        } else if !values.contains(' ')
+            && values != "0"
+            && values
                 .chars()
                 .try_for_each(|c| {
                     if c == '1' || c == '0' {
-- 
2.43.0


From defecdf308701341f27a2b65efb0ada5e42d6f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:26 +0000
Subject: [PATCH 022/101] fix: re-indexing manager maps wrongly after new
 variables or from_next_free

Variables that are not created by re-indexing did not get an entry in the
reverse map, so that all later entries were shifted, and the identity mapping
promised by from_next_free was only set up in reverse direction.
---
 src/instances/mod.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/instances/mod.rs b/src/instances/mod.rs
index 6abbd23..c2ae771 100644
--- a/src/instances/mod.rs
+++ b/src/instances/mod.rs
@@ -155,7 +155,7 @@ impl Default for BasicVarManager {
 pub struct ReindexingVarManager {
     next_var: Var,
     in_map: RsHashMap<Var, Var>,
-    out_map: Vec<Var>,
+    out_map: Vec<Option<Var>>,
 }
 
 impl ReindexingVarManager {
@@ -166,10 +166,24 @@ impl ReindexingVarManager {
     pub fn from_next_free(next_var: Var) -> Self {
         Self {
             next_var,
-            in_map: RsHashMap::default(),
-            out_map: (0..next_var.idx32()).map(Var::new).collect(),
+            in_map: (0..next_var.idx32())
+                .map(|idx| (Var::new(idx), Var::new(idx)))
+                .collect(),
+            out_map: (0..next_var.idx32())
+                .map(|idx| Some(Var::new(idx)))
+                .collect(),
         }
     }
+
+    /// Sets an entry of the reverse map
+    ///
+    /// Variables that were not created by re-indexing do not have an entry
+    fn set_reverse(&mut self, out_var: Var, in_var: Var) {
+        if out_var.idx() >= self.out_map.len() {
+            self.out_map.resize(out_var.idx() + 1, None);
+        }
+        self.out_map[out_var.idx()] = Some(in_var);
+    }
 }
 
 impl ReindexVars for ReindexingVarManager {
@@ -179,16 +193,13 @@ impl ReindexVars for ReindexingVarManager {
         } else {
             let v = self.new_var();
             self.in_map.insert(in_var, v);
-            self.out_map.push(in_var);
+            self.set_reverse(v, in_var);
             v
         }
     }
 
     fn reverse(&self, out_var: Var) -> Option<Var> {
-        if out_var.idx() >= self.out_map.len() {
-            return None;
-        }
-        Some(self.out_map[out_var.idx()])
+        self.out_map.get(out_var.idx()).copied().flatten()
     }
 }
 
-- 
2.43.0


From 62fd49bae95c2d07e2159487ceff1a22d124dfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:26 +0000
Subject: [PATCH 023/101] fix: re-indexing manager keeps reverse entry of a
 forgotten variable

---
 src/instances/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instances/mod.rs b/src/instances/mod.rs
index c2ae771..18b76a6 100644
--- a/src/instances/mod.rs
+++ b/src/instances/mod.rs
@@ -249,7 +249,7 @@ impl ManageVars for ReindexingVarManager {
 
     fn forget_from(&mut self, min_var: Var) {
         self.in_map.retain(|_, v| *v < min_var);
-        self.out_map.truncate(min_var.idx() + 1);
+        self.out_map.truncate(min_var.idx());
         self.next_var = std::cmp::min(self.next_var, min_var);
     }
 }
-- 
2.43.0


From 092d1a3f50f204ad03ca4eb7f62a9fd7a5355dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:16 +0000
Subject: [PATCH 024/101] fix: combining re-indexing managers does not update
 the reverse map

---
 src/instances/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/instances/mod.rs b/src/instances/mod.rs
index 18b76a6..0d11217 100644
--- a/src/instances/mod.rs
+++ b/src/instances/mod.rs
@@ -240,7 +240,14 @@ impl ManageVars for ReindexingVarManager {
         if other.next_var > self.next_var {
             self.next_var = other.next_var;
         }
-        self.in_map.extend(other.in_map);
+        for (in_var, out_var) in other.in_map {
+            if let Some(old) = self.in_map.insert(in_var, out_var) {
+                if self.out_map[old.idx()] == Some(in_var) {
+                    self.out_map[old.idx()] = None;
+                }
+            }
+            self.set_reverse(out_var, in_var);
+        }
     }
 
     fn n_used(&self) -> u32 {
-- 
2.43.0


From ac6d286fed0546116e039f86aa51277ad27bdef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:38 +0000
Subject: [PATCH 025/101] fix: combining random re-indexing managers does not
 give a renaming

---
 src/instances/mod.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/instances/mod.rs b/src/instances/mod.rs
index 0d11217..2b9a7b8 100644
--- a/src/instances/mod.rs
+++ b/src/instances/mod.rs
@@ -428,7 +428,20 @@ impl ManageVars for RandReindVarManager {
         if other.next_var > self.next_var {
             self.next_var = other.next_var;
         }
-        self.in_map.extend(other.in_map);
+        // Mappings of `other` have precedence, the remaining variables are permuted among themselves
+        let mut in_map = other.in_map;
+        for idx in in_map.len()..self.in_map.len() {
+            let mut v = self.in_map[idx];
+            while v.idx() < other.out_map.len() {
+                v = self.in_map[v.idx()];
+            }
+            in_map.push(v);
+        }
+        self.out_map = vec![Var::new(0); in_map.len()];
+        in_map.iter().enumerate().for_each(|(idx, v)| {
+            self.out_map[v.idx()] = Var::new(crate::utils::unreachable_err!(u32::try_from(idx)));
+        });
+        self.in_map = in_map;
     }
 
     fn n_used(&self) -> u32 {
-- 
2.43.0


From b8a001ddfdb87806fffb3e8369a4a439a7d62883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 026/101] fix: extending an instance by another drops
 cardinality and PB constraints

---
 src/instances/sat.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/instances/sat.rs b/src/instances/sat.rs
index ba92001..2b36e2f 100644
--- a/src/instances/sat.rs
+++ b/src/instances/sat.rs
@@ -709,6 +709,8 @@ impl<VM: super::ManageVars> Instance<VM> {
     /// Extends the instance by another instance
     pub fn extend(&mut self, other: Instance<VM>) {
         self.cnf.extend(other.cnf);
+        self.cards.extend(other.cards);
+        self.pbs.extend(other.pbs);
         self.var_manager.combine(other.var_manager);
     }
 
-- 
2.43.0


From 0a507e852f1ead9c222c7463dc76cd9a6a539ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:45 +0000
Subject: [PATCH 027/101] fix: clauses added through Extend and CollectClauses
 do not mark variables as used

---
 src/instances/sat.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/instances/sat.rs b/src/instances/sat.rs
index 2b36e2f..0bd2a79 100644
--- a/src/instances/sat.rs
+++ b/src/instances/sat.rs
@@ -10,6 +10,8 @@ use crate::types::Lit;
 use crate::types::TernaryVal;
 use crate::types::Var;
 
+use super::ManageVars;
+
 /// Simple type representing a CNF formula. Other than [`Instance<VM>`], this
 /// type only supports clauses and does have an internal variable manager.
 ///
@@ -1159,7 +1161,14 @@ impl<VM: super::ManageVars + Default> From<Cnf> for Instance<VM> {
 
 impl<VM: super::ManageVars> Extend<Clause> for Instance<VM> {
     fn extend<T: IntoIterator<Item = Clause>>(&mut self, iter: T) {
-        self.cnf.extend(iter);
+        let Self {
+            cnf, var_manager, ..
+        } = self;
+        cnf.extend(iter.into_iter().inspect(|cl| {
+            cl.iter().for_each(|l| {
+                var_manager.mark_used(l.var());
+            });
+        }));
     }
 }
 
@@ -1172,7 +1181,14 @@ impl CollectClauses for Instance {
     where
         T: IntoIterator<Item = Clause>,
     {
-        self.cnf.extend_clauses(cl_iter)
+        let Self {
+            cnf, var_manager, ..
+        } = self;
+        cnf.extend_clauses(cl_iter.into_iter().inspect(|cl| {
+            cl.iter().for_each(|l| {
+                var_manager.mark_used(l.var());
+            });
+        }))
     }
 }
 
-- 
2.43.0


From 7f57dd4302df39b3a972bed2ae8cff6ce9a3b599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:39 +0000
Subject: [PATCH 028/101] fix: sanitizing an unsatisfiable instance uses a
 variable that is not marked as used

---
 src/instances/sat.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/instances/sat.rs b/src/instances/sat.rs
index 0bd2a79..23c57f0 100644
--- a/src/instances/sat.rs
+++ b/src/instances/sat.rs
@@ -931,6 +931,8 @@ impl<VM: super::ManageVars> Instance<VM> {
             })
             .collect();
         if unsat {
+            let mut var_manager = self.var_manager;
+            var_manager.mark_used(Var::new(0));
             return Self {
                 cnf: Cnf::from_iter(vec![
                     crate::clause![Lit::new(0, false)],
@@ -938,7 +940,7 @@ impl<VM: super::ManageVars> Instance<VM> {
                 ]),
                 cards: vec![],
                 pbs: vec![],
-                var_manager: self.var_manager,
+                var_manager,
             };
         }
         Self {
-- 
2.43.0


From 3bb34bf6a11b7dc72973e4a52c7430396de397c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:42 +0000
Subject: [PATCH 029/101] fix: repeated soft clauses in WCNF and MCNF lines
 replace each other

---
 src/instances/multiopt.rs | 2 +-
 src/instances/opt.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/instances/multiopt.rs b/src/instances/multiopt.rs
index d781e12..1a193a7 100644
--- a/src/instances/multiopt.rs
+++ b/src/instances/multiopt.rs
@@ -475,7 +475,7 @@ impl<VM: ManageVars + Default> FromIterator<fio::dimacs::McnfLine> for MultiOptI
                     for l in &cl {
                         inst.constraints_mut().var_manager_mut().mark_used(l.var());
                     }
-                    inst.objective_mut(oidx).add_soft_clause(w, cl);
+                    inst.objective_mut(oidx).increase_soft_clause(w, cl);
                 }
             }
         }
diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index bcc32e8..e6459ee 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1689,7 +1689,7 @@ impl<VM: super::ManageVars + Default> FromIterator<super::fio::dimacs::WcnfLine>
                 super::fio::dimacs::WcnfLine::Comment(_) => (),
                 super::fio::dimacs::WcnfLine::Hard(cl) => inst.constraints_mut().add_clause(cl),
                 super::fio::dimacs::WcnfLine::Soft(cl, w) => {
-                    inst.objective_mut().add_soft_clause(w, cl);
+                    inst.objective_mut().increase_soft_clause(w, cl);
                 }
             }
         }
-- 
2.43.0


From 485dd4fa75d63cbb077a33ab21c976403482cf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:42 +0000
Subject: [PATCH 030/101] fix: increasing an empty soft clause breaks later
 conversions

---
 src/instances/opt.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index e6459ee..41ef063 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -529,10 +529,17 @@ impl Objective {
 
     /// Increases the weight of a soft clause. Returns the old weight, if the
     /// clause was already in the objective.
+    ///
+    /// # Panics
+    ///
+    /// If the clause is empty and `add_w` is larger than [`isize::MAX`]
     pub fn increase_soft_clause(&mut self, add_w: usize, cl: Clause) {
         if add_w == 0 {
             return;
         }
+        if cl.is_empty() {
+            return self.increase_offset(isize::try_from(add_w).expect("weight overflow"));
+        }
         if cl.len() == 1 {
             return self.increase_soft_lit(add_w, !cl[0]);
         }
-- 
2.43.0


From 8ff8fa679069287b9d792fb4826c6064e65e8283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:42 +0000
Subject: [PATCH 031/101] fix: relaxed soft clauses never incur cost in
 solve_maxsat

---
 src/instances/opt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 41ef063..64380d5 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1672,7 +1672,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
             }
             let blit = vm.new_lit();
             solver
-                .add_clause(cl | !blit)
+                .add_clause(cl | blit)
                 .expect("failed adding clause to solver");
             (blit, weight)
         };
-- 
2.43.0


From b30a6b612590feb547eda477678ffa3278465978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:25 +0000
Subject: [PATCH 032/101] fix: auxiliary variables in instance conversions
 clash with objective variables

Encoding the constraints before marking the variables of the objectives as used
hands out objective variables as auxiliary variables. For multi-objective
instances the highest objective variable was additionally handed out as a
relaxation variable, and an unused variable was marked without objectives.
---
 src/instances/multiopt.rs | 39 +++++++++------------------------------
 src/instances/opt.rs      | 23 ++++++++++-------------
 2 files changed, 19 insertions(+), 43 deletions(-)

diff --git a/src/instances/multiopt.rs b/src/instances/multiopt.rs
index 1a193a7..0ba4a03 100644
--- a/src/instances/multiopt.rs
+++ b/src/instances/multiopt.rs
@@ -56,13 +56,9 @@ impl<VM: ManageVars> MultiOptInstance<VM> {
 
     /// Decomposes the optimization instance to a [`SatInstance`] and [`Objective`]s
     pub fn decompose(mut self) -> (SatInstance<VM>, Vec<Objective>) {
-        let omv = self.objs.iter().fold(Var::new(0), |v, o| {
-            if let Some(mv) = o.max_var() {
-                return std::cmp::max(v, mv);
-            }
-            v
-        });
-        self.constrs.var_manager.increase_next_free(omv + 1);
+        if let Some(mv) = self.objs.iter().filter_map(Objective::max_var).max() {
+            self.constrs.var_manager.increase_next_free(mv + 1);
+        }
         (self.constrs, self.objs)
     }
 
@@ -137,19 +133,9 @@ impl<VM: ManageVars> MultiOptInstance<VM> {
     ///
     /// This might panic if the conversion to [`Cnf`] runs out of memory.
     pub fn into_hard_cls_soft_cls(self) -> (Cnf, Vec<(impl crate::types::WClsIter, isize)>, VM) {
-        let (cnf, mut vm) = self.constrs.into_cnf();
-        let omv = self.objs.iter().fold(Var::new(0), |v, o| {
-            if let Some(mv) = o.max_var() {
-                return std::cmp::max(v, mv);
-            }
-            v
-        });
-        vm.increase_next_free(omv + 1);
-        let soft_cls = self
-            .objs
-            .into_iter()
-            .map(Objective::into_soft_cls)
-            .collect();
+        let (constrs, objs) = self.decompose();
+        let (cnf, vm) = constrs.into_cnf();
+        let soft_cls = objs.into_iter().map(Objective::into_soft_cls).collect();
         (cnf, soft_cls, vm)
     }
 
@@ -159,16 +145,9 @@ impl<VM: ManageVars> MultiOptInstance<VM> {
     ///
     /// This might panic if the conversion to [`Cnf`] runs out of memory.
     pub fn into_hard_cls_soft_lits(self) -> (Cnf, Vec<(impl crate::types::WLitIter, isize)>, VM) {
-        let (mut cnf, mut vm) = self.constrs.into_cnf();
-        let omv = self.objs.iter().fold(Var::new(0), |v, o| {
-            if let Some(mv) = o.max_var() {
-                return std::cmp::max(v, mv);
-            }
-            v
-        });
-        vm.increase_next_free(omv);
-        let soft_lits = self
-            .objs
+        let (constrs, objs) = self.decompose();
+        let (mut cnf, mut vm) = constrs.into_cnf();
+        let soft_lits = objs
             .into_iter()
             .map(|o| {
                 let (hards, softs) = o.into_soft_lits(&mut vm);
diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 64380d5..f62aca6 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1296,11 +1296,9 @@ impl<VM: super::ManageVars> Instance<VM> {
     ///
     /// This might panic if the conversion to [`super::Cnf`] runs out of memory.
     pub fn into_hard_cls_soft_cls(self) -> (super::Cnf, (impl crate::types::WClsIter, isize), VM) {
-        let (cnf, mut vm) = self.constrs.into_cnf();
-        if let Some(mv) = self.obj.max_var() {
-            vm.increase_next_free(mv + 1);
-        }
-        (cnf, self.obj.into_soft_cls(), vm)
+        let (constrs, obj) = self.decompose();
+        let (cnf, vm) = constrs.into_cnf();
+        (cnf, obj.into_soft_cls(), vm)
     }
 
     /// Converts the instance to a set of hard clauses and soft literals, an
@@ -1310,11 +1308,9 @@ impl<VM: super::ManageVars> Instance<VM> {
     ///
     /// This might panic if the conversion to [`super::Cnf`] runs out of memory.
     pub fn into_hard_cls_soft_lits(self) -> (super::Cnf, (impl crate::types::WLitIter, isize), VM) {
-        let (mut cnf, mut vm) = self.constrs.into_cnf();
-        if let Some(mv) = self.obj.max_var() {
-            vm.increase_next_free(mv + 1);
-        }
-        let (hard_softs, softs) = self.obj.into_soft_lits(&mut vm);
+        let (constrs, obj) = self.decompose();
+        let (mut cnf, mut vm) = constrs.into_cnf();
+        let (hard_softs, softs) = obj.into_soft_lits(&mut vm);
         cnf.extend(hard_softs);
         (cnf, softs, vm)
     }
@@ -1656,8 +1652,9 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
         use crate::solvers::Solve;
 
         let mut solver = Alg::Solver::default();
-        let (cnf, vm) = self.constrs.into_cnf();
-        let mut vm = if let Some(max_var) = std::cmp::max(vm.max_var(), self.obj.max_var()) {
+        let (constrs, obj) = self.decompose();
+        let (cnf, vm) = constrs.into_cnf();
+        let mut vm = if let Some(max_var) = vm.max_var() {
             super::BasicVarManager::from_next_free(max_var + 1)
         } else {
             super::BasicVarManager::default()
@@ -1676,7 +1673,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
                 .expect("failed adding clause to solver");
             (blit, weight)
         };
-        let (iter, offset) = self.obj.into_soft_cls();
+        let (iter, offset) = obj.into_soft_cls();
         let obj: Vec<_> = iter.into_iter().map(handle_soft_cls).collect();
         let (sol, cost) = Alg::solve(&mut solver, &obj)?;
         Some((
-- 
2.43.0


From 08d47f173637c975de0660f4ddfe0d0572e7708a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 033/101] fix: weights of repeated softs in unweighted
 objectives are wrong

Increasing a soft by the unit weight repeats it in the objective, which was not
considered when its weight was queried, updated or removed.
---
 src/instances/opt.rs | 46 +++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index f62aca6..f0e82c0 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -400,17 +400,22 @@ impl Objective {
                 ..
             } => {
                 if w == 0 {
-                    if let Some(idx) = soft_lits.iter().position(|l2| l2 == &l) {
-                        soft_lits.swap_remove(idx);
-                        return Some(crate::utils::unreachable_none!(*unit_weight));
+                    let n_before = soft_lits.len();
+                    soft_lits.retain(|l2| l2 != &l);
+                    let n_removed = n_before - soft_lits.len();
+                    if n_removed > 0 {
+                        return Some(n_removed * crate::utils::unreachable_none!(*unit_weight));
                     }
                     None
                 } else if let Some(unit_weight) = unit_weight {
                     if w == *unit_weight {
-                        if soft_lits.iter().any(|l2| l2 == &l) {
-                            return Some(*unit_weight);
-                        }
+                        let n_before = soft_lits.len();
+                        soft_lits.retain(|l2| l2 != &l);
+                        let n_removed = n_before - soft_lits.len();
                         soft_lits.push(l);
+                        if n_removed > 0 {
+                            return Some(n_removed * *unit_weight);
+                        }
                         None
                     } else {
                         // Type changes from unweighted to weighted
@@ -500,17 +505,22 @@ impl Objective {
                 ..
             } => {
                 if w == 0 {
-                    if let Some(idx) = soft_clauses.iter().position(|cl2| cl2 == &cl) {
-                        soft_clauses.swap_remove(idx);
-                        return Some(crate::utils::unreachable_none!(*unit_weight));
+                    let n_before = soft_clauses.len();
+                    soft_clauses.retain(|cl2| cl2 != &cl);
+                    let n_removed = n_before - soft_clauses.len();
+                    if n_removed > 0 {
+                        return Some(n_removed * crate::utils::unreachable_none!(*unit_weight));
                     }
                     None
                 } else if let Some(unit_weight) = unit_weight {
                     if w == *unit_weight {
-                        if soft_clauses.iter().any(|cl2| cl2 == &cl) {
-                            return Some(*unit_weight);
-                        }
+                        let n_before = soft_clauses.len();
+                        soft_clauses.retain(|cl2| cl2 != &cl);
+                        let n_removed = n_before - soft_clauses.len();
                         soft_clauses.push(cl);
+                        if n_removed > 0 {
+                            return Some(n_removed * *unit_weight);
+                        }
                         None
                     } else {
                         // Type changes from unweighted to weighted
@@ -577,8 +587,10 @@ impl Objective {
                 soft_lits,
                 ..
             } => {
-                if soft_lits.iter().any(|l2| l2 == &l) {
-                    Some(crate::utils::unreachable_none!(*unit_weight))
+                // repeated entries add up
+                let n = soft_lits.iter().filter(|l2| *l2 == &l).count();
+                if n > 0 {
+                    Some(n * crate::utils::unreachable_none!(*unit_weight))
                 } else {
                     None
                 }
@@ -596,8 +608,10 @@ impl Objective {
                 soft_clauses,
                 ..
             } => {
-                if soft_clauses.iter().any(|cl2| cl2 == cl) {
-                    Some(crate::utils::unreachable_none!(*unit_weight))
+                // repeated entries add up
+                let n = soft_clauses.iter().filter(|cl2| *cl2 == cl).count();
+                if n > 0 {
+                    Some(n * crate::utils::unreachable_none!(*unit_weight))
                 } else {
                     None
                 }
-- 
2.43.0


From 4240e11bbdb46af59f86fa22e164eb1572bb092a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 034/101] fix: normalizing an unweighted objective panics
 without and keeps wrong soft literals

---
 src/instances/opt.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index f0e82c0..b978774 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1032,7 +1032,7 @@ impl Objective {
                 soft_lits.sort_unstable();
                 let mut next = 0;
                 let mut end = 0;
-                while next < soft_lits.len() - 1 {
+                while next + 1 < soft_lits.len() {
                     if soft_lits[next] == !soft_lits[next + 1] {
                         // skip conflicting literals
                         *offset += isize::try_from(unit_weight)
@@ -1049,7 +1049,11 @@ impl Objective {
                     end += 1;
                     next += 1;
                 }
-                soft_lits.truncate(end + usize::from(next < soft_lits.len()));
+                if next < soft_lits.len() {
+                    soft_lits.swap(end, next);
+                    end += 1;
+                }
+                soft_lits.truncate(end);
 
                 if soft_lits.is_empty() && soft_clauses.is_empty() {
                     *self_unit_weight = None;
-- 
2.43.0


From 69abe08d391eef416c105e46a314c15d5dde959a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 035/101] fix: normalizing a weighted objective loses the
 offset of a constant

---
 src/instances/opt.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index b978774..c99ec7e 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -964,7 +964,9 @@ impl Objective {
                     *soft_clauses.entry(clause).or_default() += weight;
                 }
                 if soft_clauses.is_empty() && soft_lits.is_empty() {
-                    return Self::default();
+                    let mut constant = Self::default();
+                    constant.set_offset(*offset);
+                    return constant;
                 }
                 let unit_weight = *soft_lits
                     .values()
-- 
2.43.0


From a99af0e58f8e177b71cd4294f44f8d1820316026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:59 +0000
Subject: [PATCH 036/101] fix: normalizing an unweighted objective counts
 conflicting literals twice

---
 src/instances/opt.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index c99ec7e..e577ba8 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1032,6 +1032,13 @@ impl Objective {
                 }
 
                 soft_lits.sort_unstable();
+                for pair in soft_lits.windows(2) {
+                    if pair[0] == pair[1] {
+                        // duplicate literal: objective is actually weighted
+                        self.unweighted_2_weighted();
+                        return self.normalize();
+                    }
+                }
                 let mut next = 0;
                 let mut end = 0;
                 while next + 1 < soft_lits.len() {
@@ -1042,11 +1049,6 @@ impl Objective {
                         next += 2;
                         continue;
                     }
-                    if soft_lits[next] == soft_lits[next + 1] {
-                        // duplicate literal: objective is actually weighted
-                        self.unweighted_2_weighted();
-                        return self.normalize();
-                    }
                     soft_lits.swap(end, next);
                     end += 1;
                     next += 1;
-- 
2.43.0


From d3b3c02a0229db9bdbf7b5ccb571bff763054c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:46 +0000
Subject: [PATCH 037/101] fix: header lines written line-based to DIMACS CNF
 lack the format

---
 src/instances/fio/dimacs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instances/fio/dimacs.rs b/src/instances/fio/dimacs.rs
index 0d61418..2d5a7a2 100644
--- a/src/instances/fio/dimacs.rs
+++ b/src/instances/fio/dimacs.rs
@@ -876,7 +876,7 @@ pub fn write_cnf<W: std::io::Write, Iter: Iterator<Item = CnfLine>>(
     mut data: Iter,
 ) -> Result<(), std::io::Error> {
     data.try_for_each(|dat| match dat {
-        CnfLine::Header(n_vars, n_clauses) => writeln!(writer, "p {n_vars} {n_clauses}"),
+        CnfLine::Header(n_vars, n_clauses) => writeln!(writer, "p cnf {n_vars} {n_clauses}"),
         CnfLine::Comment(c) => write!(writer, "c {c}"),
         CnfLine::Clause(cl) => write_clause(&mut writer, &cl),
     })
-- 
2.43.0


From 6e096a8239049348e0ca0565c56339d7e4503b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 038/101] fix: comment lines in DIMACS CNF and WCNF files are
 not terminated

---
 src/instances/fio/dimacs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/instances/fio/dimacs.rs b/src/instances/fio/dimacs.rs
index 2d5a7a2..058e6f8 100644
--- a/src/instances/fio/dimacs.rs
+++ b/src/instances/fio/dimacs.rs
@@ -877,7 +877,7 @@ pub fn write_cnf<W: std::io::Write, Iter: Iterator<Item = CnfLine>>(
 ) -> Result<(), std::io::Error> {
     data.try_for_each(|dat| match dat {
         CnfLine::Header(n_vars, n_clauses) => writeln!(writer, "p cnf {n_vars} {n_clauses}"),
-        CnfLine::Comment(c) => write!(writer, "c {c}"),
+        CnfLine::Comment(c) => writeln!(writer, "c {c}"),
         CnfLine::Clause(cl) => write_clause(&mut writer, &cl),
     })
 }
@@ -937,7 +937,7 @@ pub fn write_wcnf<W: std::io::Write, Iter: Iterator<Item = WcnfLine>>(
     mut data: Iter,
 ) -> Result<(), std::io::Error> {
     data.try_for_each(|dat| match dat {
-        WcnfLine::Comment(c) => write!(writer, "c {c}"),
+        WcnfLine::Comment(c) => writeln!(writer, "c {c}"),
         WcnfLine::Hard(cl) => {
             write!(writer, "h ")?;
             write_clause(&mut writer, &cl)
-- 
2.43.0


From eecd88cab7929fac8e769962e1cd7e408b5a415b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 039/101] fix: DIMACS parsers panic when continuing after an
 erroneous line

---
 src/instances/fio/dimacs.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/instances/fio/dimacs.rs b/src/instances/fio/dimacs.rs
index 058e6f8..707d041 100644
--- a/src/instances/fio/dimacs.rs
+++ b/src/instances/fio/dimacs.rs
@@ -75,7 +75,8 @@ impl<Variant, R> Parser<Variant, R> {
     where
         R: std::io::BufRead,
     {
-        debug_assert!(self.buffer.is_empty());
+        // the buffer still holds the previous line if parsing it failed
+        self.buffer.clear();
         loop {
             let read = self.reader.read_line(&mut self.buffer)?;
             if read == 0 {
@@ -127,7 +128,6 @@ where
     /// encountered.
     #[expect(clippy::missing_panics_doc)]
     pub fn forward_to_body(mut self) -> Result<CnfHeaderData<R>, super::Error> {
-        debug_assert!(self.buffer.is_empty());
         if let Some((n_vars, n_clauses)) = self.variant.header_data {
             return Ok(CnfHeaderData {
                 n_vars,
@@ -361,7 +361,6 @@ where
     /// encountered.
     #[expect(clippy::missing_panics_doc)]
     pub fn forward_to_body(mut self) -> Result<WcnfHeaderData<R>, super::Error> {
-        debug_assert!(self.buffer.is_empty());
         if let Some(header_data) = self.variant.header_data {
             return Ok(match header_data {
                 WcnfInternalHeaderData::Pre22 {
-- 
2.43.0


From f2980b9c84d30f77520d8306eb8e4efe21beda10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 040/101] fix: OPB parser never gets past an erroneous line

---
 src/instances/fio/opb.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/instances/fio/opb.rs b/src/instances/fio/opb.rs
index f67c324..f474d3c 100644
--- a/src/instances/fio/opb.rs
+++ b/src/instances/fio/opb.rs
@@ -98,13 +98,11 @@ where
         }
         let (data, rest) = match (opb_data(self.opts), rest).parse(&self.buffer[self.processed..]) {
             Err(err) => {
-                return Some(Err(ParsingError::from_parse(
-                    &err,
-                    &self.buffer,
-                    self.processed,
-                    self.line_no,
-                )
-                .into()));
+                let err =
+                    ParsingError::from_parse(&err, &self.buffer, self.processed, self.line_no);
+                // skip the rest of the line, otherwise the same error is returned forever
+                self.processed = self.buffer.len();
+                return Some(Err(err.into()));
             }
             Ok(data) => data,
         };
-- 
2.43.0


From 08feef265d9301bb3f6f9a52524a056aed7f8149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 041/101] fix: strict upper bounds in OPB files are read as too
 weak

---
 src/instances/fio/opb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instances/fio/opb.rs b/src/instances/fio/opb.rs
index f474d3c..9e1fbe7 100644
--- a/src/instances/fio/opb.rs
+++ b/src/instances/fio/opb.rs
@@ -386,7 +386,7 @@ fn constraint<'i>(opts: Options) -> impl OpbParser<'i, PbConstraint> {
         |(sum, opt, b)| match opt {
             OpbOperator::LE => PbConstraint::new_ub(sum, b),
             OpbOperator::GE => PbConstraint::new_lb(sum, b),
-            OpbOperator::LT => PbConstraint::new_ub(sum, b + 1),
+            OpbOperator::LT => PbConstraint::new_ub(sum, b - 1),
             OpbOperator::GT => PbConstraint::new_lb(sum, b + 1),
             OpbOperator::EQ => PbConstraint::new_eq(sum, b),
         },
-- 
2.43.0


From e719677e28e208a3867e62a57d17188bae39efe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:16 +0000
Subject: [PATCH 042/101] fix: too many variables in DIMACS headers panic

---
 src/instances/fio/dimacs.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/instances/fio/dimacs.rs b/src/instances/fio/dimacs.rs
index 707d041..b4741ef 100644
--- a/src/instances/fio/dimacs.rs
+++ b/src/instances/fio/dimacs.rs
@@ -31,6 +31,7 @@ use crate::instances::Cnf;
 use crate::types::Cl;
 use crate::types::Clause;
 use crate::types::Lit;
+use crate::types::Var;
 use crate::utils;
 
 use super::ParsingError;
@@ -718,15 +719,22 @@ where
     }
 }
 
+/// Parses the number of variables in a DIMACS header
+fn n_vars(input: &mut &str) -> ModalResult<u32> {
+    dec_uint
+        .verify(|n: &u32| *n <= Var::MAX_IDX)
+        .parse_next(input)
+}
+
 fn cnf_p_line(input: &mut &str) -> ModalResult<(u32, usize)> {
-    seq! { _: 'p', _: space1, _: cut_err("cnf"), _: space1, dec_uint, _: space1, dec_uint, _: space0 }
+    seq! { _: 'p', _: space1, _: cut_err("cnf"), _: space1, n_vars, _: space1, dec_uint, _: space0 }
         .context(StrContext::Label("cnf p-line"))
         .parse_next(input)
 }
 
 #[cfg(feature = "optimization")]
 fn wcnf_p_line(input: &mut &str) -> ModalResult<(u32, usize, usize)> {
-    seq! { _: 'p', _: space1, _: cut_err("wcnf"), _: space1, dec_uint, _: space1, dec_uint, _: space1, dec_uint, _: space0 }
+    seq! { _: 'p', _: space1, _: cut_err("wcnf"), _: space1, n_vars, _: space1, dec_uint, _: space1, dec_uint, _: space0 }
         .context(StrContext::Label("wcnf p-line"))
         .parse_next(input)
 }
-- 
2.43.0


From bb66ee0da648e62155658f9b8c92f5498548d7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:16 +0000
Subject: [PATCH 043/101] fix: too high variable indices in OPB files panic

---
 src/instances/fio/opb.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/instances/fio/opb.rs b/src/instances/fio/opb.rs
index 9e1fbe7..1a530f3 100644
--- a/src/instances/fio/opb.rs
+++ b/src/instances/fio/opb.rs
@@ -304,8 +304,11 @@ where
             if idx < self.0 {
                 return Err(VarIdxTooLow(idx, self.0));
             }
-            Ok(Var::new(idx - self.0))
+            Ok(idx - self.0)
         })
+        // leave room for the next free variable
+        .verify(|idx| *idx < Var::MAX_IDX)
+        .map(Var::new)
         .context(StrContext::Label("variable"))
         .parse_next(input)
     }
-- 
2.43.0


From 8559934885081e5131250e709ae5d0280da42af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:03 +0000
Subject: [PATCH 044/101] fix: coefficients that overflow when normalizing
 panic in the OPB parser

---
 src/instances/fio/opb.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/instances/fio/opb.rs b/src/instances/fio/opb.rs
index 1a530f3..379e430 100644
--- a/src/instances/fio/opb.rs
+++ b/src/instances/fio/opb.rs
@@ -207,6 +207,8 @@ pub enum ObjectiveSense {
 struct ObjectiveSum {
     terms: Vec<(usize, Lit)>,
     offset: isize,
+    /// The total magnitude of the coefficients, unless it overflows
+    total: Option<isize>,
 }
 
 #[cfg(feature = "optimization")]
@@ -216,16 +218,22 @@ impl winnow::stream::Accumulate<(Lit, isize)> for ObjectiveSum {
             Self {
                 terms: Vec::with_capacity(capacity),
                 offset: 0,
+                total: Some(0),
             }
         } else {
             Self {
                 terms: Vec::new(),
                 offset: 0,
+                total: Some(0),
             }
         }
     }
 
     fn accumulate(&mut self, (lit, coeff): (Lit, isize)) {
+        self.total = self.total.and_then(|total| add_magnitude(total, coeff));
+        if self.total.is_none() {
+            return;
+        }
         if coeff > 0 {
             self.terms.push((coeff.unsigned_abs(), lit));
         } else {
@@ -383,9 +391,21 @@ fn ending<'i>(input: &mut &'i str) -> ModalResult<&'i str> {
         .parse_next(input)
 }
 
+/// Adds the magnitude of a coefficient or bound to a total, unless this overflows
+fn add_magnitude(total: isize, value: isize) -> Option<isize> {
+    total.checked_add(value.checked_abs()?)
+}
+
 /// Parses an OPB constraint
 fn constraint<'i>(opts: Options) -> impl OpbParser<'i, PbConstraint> {
-    seq! { term_sum::<Vec<(Lit, isize)>>(opts), _: space0, operator, _: space0, cut_err(coeff), _: ending }.map(
+    seq! { term_sum::<Vec<(Lit, isize)>>(opts), _: space0, operator, _: space0, cut_err(coeff), _: ending }
+        .verify(|(sum, _, b)| {
+            // normalizing the constraint must not overflow
+            sum.iter()
+                .try_fold(1, |total, (_, w)| add_magnitude(total, *w))
+                .is_some_and(|total| add_magnitude(total, *b).is_some())
+        })
+        .map(
         |(sum, opt, b)| match opt {
             OpbOperator::LE => PbConstraint::new_ub(sum, b),
             OpbOperator::GE => PbConstraint::new_lb(sum, b),
@@ -399,7 +419,7 @@ fn constraint<'i>(opts: Options) -> impl OpbParser<'i, PbConstraint> {
 #[cfg(feature = "optimization")]
 /// Parses an OPB objective
 fn objective<'i>(opts: Options) -> impl OpbParser<'i, Objective> {
-    seq! { alt(("min:".map(|_| ObjectiveSense::Minimize), "max:".map(|_| ObjectiveSense::Maximize))), _: space0, cut_err(term_sum::<ObjectiveSum>(opts)), _: cut_err(ending) }
+    seq! { alt(("min:".map(|_| ObjectiveSense::Minimize), "max:".map(|_| ObjectiveSense::Maximize))), _: space0, cut_err(term_sum::<ObjectiveSum>(opts).verify(|sum: &ObjectiveSum| sum.total.is_some())), _: cut_err(ending) }
         .map(|(sense,sum )| Objective::new(sense, sum))
         .context(StrContext::Label("objective"))
 }
-- 
2.43.0


From 16f3d39265c02ad317630a561dc8a7f2dd0973f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 045/101] fix: converting maximization objectives with large
 coefficients panics

---
 src/instances/fio/opb.rs  | 11 +++++++++++
 src/instances/multiopt.rs | 12 +++++++++++-
 src/instances/opt.rs      |  5 ++++-
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/instances/fio/opb.rs b/src/instances/fio/opb.rs
index 379e430..d6ee74e 100644
--- a/src/instances/fio/opb.rs
+++ b/src/instances/fio/opb.rs
@@ -187,6 +187,17 @@ impl Objective {
             offset: sum.offset,
         }
     }
+
+    /// Checks whether converting the maximization objective to a minimization objective does not
+    /// overflow
+    #[cfg(feature = "multiopt")]
+    pub(crate) fn maximization_converts(&self) -> bool {
+        self.terms
+            .iter()
+            .try_fold(0, |sum: usize, (coeff, _)| sum.checked_add(*coeff))
+            .and_then(|sum| isize::try_from(sum).ok())
+            .is_some_and(|sum| self.offset.checked_sub(sum).is_some())
+    }
 }
 
 /// Whether the objective should be minimized or maximized
diff --git a/src/instances/multiopt.rs b/src/instances/multiopt.rs
index 0ba4a03..33465fe 100644
--- a/src/instances/multiopt.rs
+++ b/src/instances/multiopt.rs
@@ -421,7 +421,17 @@ impl<VM: ManageVars + Default> MultiOptInstance<VM> {
         reader: R,
         opts: fio::opb::Options,
     ) -> Result<Self, fio::Error> {
-        fio::opb::Parser::new(reader, opts).collect()
+        fio::opb::Parser::new(reader, opts)
+            .map(|data| match data? {
+                fio::opb::Data::Obj(obj)
+                    if obj.sense == fio::opb::ObjectiveSense::Maximize
+                        && !obj.maximization_converts() =>
+                {
+                    Err(fio::Error::ObjectiveConversionOverflow)
+                }
+                data => Ok(data),
+            })
+            .collect()
     }
 
     /// Parses an OPB instance from a file path. For more details see
diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index e577ba8..2a1d0c3 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1637,7 +1637,10 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
                     .into_iter()
                     .map(|(coeff, lit)| (!lit, coeff))
                     .collect();
-                obj.increase_offset(offset - coeff_sum);
+                let Some(offset) = offset.checked_sub(coeff_sum) else {
+                    return Err(super::fio::Error::ObjectiveConversionOverflow);
+                };
+                obj.increase_offset(offset);
                 obj
             }
         };
-- 
2.43.0


From bab148b9c7e903e6b71fcd243941b49bb8dc2efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:53 +0000
Subject: [PATCH 046/101] fix: overflowing soft clause weights panic when
 reading WCNF and MCNF files

---
 src/instances/fio/mod.rs  | 18 ++++++++++++++++++
 src/instances/multiopt.rs |  3 +++
 src/instances/opt.rs      |  3 +++
 3 files changed, 24 insertions(+)

diff --git a/src/instances/fio/mod.rs b/src/instances/fio/mod.rs
index da336f0..f2392b5 100644
--- a/src/instances/fio/mod.rs
+++ b/src/instances/fio/mod.rs
@@ -40,6 +40,24 @@ pub enum Error {
     #[cfg(feature = "optimization")]
     #[error("overflow in converting maximization objective to minimization objective")]
     ObjectiveConversionOverflow,
+    /// The sum of the weights of an objective overflows
+    #[cfg(feature = "optimization")]
+    #[error("overflow in the sum of objective weights")]
+    WeightOverflow,
+}
+
+/// Adds the weight of a soft clause to the sum of the weights of its objective
+///
+/// # Errors
+///
+/// If the sum is larger than [`isize::MAX`], so that objective values might overflow
+#[cfg(feature = "optimization")]
+pub(crate) fn add_weight(sum: &mut usize, weight: usize) -> Result<(), Error> {
+    *sum = sum
+        .checked_add(weight)
+        .filter(|sum| isize::try_from(*sum).is_ok())
+        .ok_or(Error::WeightOverflow)?;
+    Ok(())
 }
 
 /// An error occurring during parsing
diff --git a/src/instances/multiopt.rs b/src/instances/multiopt.rs
index 33465fe..5706240 100644
--- a/src/instances/multiopt.rs
+++ b/src/instances/multiopt.rs
@@ -375,6 +375,7 @@ impl<VM: ManageVars + Default> MultiOptInstance<VM> {
     pub fn from_dimacs<R: std::io::BufRead>(reader: R) -> Result<Self, fio::Error> {
         let mut constrs = SatInstance::<VM>::default();
         let mut objs = vec![];
+        let mut weight_sums = vec![];
         for data in fio::dimacs::Parser::<fio::dimacs::Mcnf, _>::new(reader) {
             match data? {
                 fio::dimacs::McnfData::HardClause(clause) => constrs.add_clause(clause),
@@ -385,7 +386,9 @@ impl<VM: ManageVars + Default> MultiOptInstance<VM> {
                 } => {
                     if obj_idx > objs.len() {
                         objs.resize(obj_idx, Objective::new());
+                        weight_sums.resize(obj_idx, 0);
                     }
+                    fio::add_weight(&mut weight_sums[obj_idx - 1], weight)?;
                     objs[obj_idx - 1].increase_soft_clause(weight, clause);
                 }
                 fio::dimacs::McnfData::Comment(_) => (),
diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 2a1d0c3..49ec748 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1531,6 +1531,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
                 .forward_to_body()?;
         let mut constrs = super::SatInstance::<VM>::default();
         let mut obj = Objective::default();
+        let mut weight_sum = 0;
         match header_data {
             super::fio::dimacs::WcnfHeaderData::Pre22 {
                 n_vars,
@@ -1546,6 +1547,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
                             constrs.add_clause(clause);
                         }
                         super::fio::dimacs::WcnfData::SoftClause { weight, clause } => {
+                            super::fio::add_weight(&mut weight_sum, weight)?;
                             obj.increase_soft_clause(weight, clause);
                         }
                         super::fio::dimacs::WcnfData::Comment(_) => (),
@@ -1559,6 +1561,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
                             constrs.add_clause(clause);
                         }
                         super::fio::dimacs::WcnfData::SoftClause { weight, clause } => {
+                            super::fio::add_weight(&mut weight_sum, weight)?;
                             obj.increase_soft_clause(weight, clause);
                         }
                         super::fio::dimacs::WcnfData::Comment(_) => (),
-- 
2.43.0


From d49336eab0de1752d84cbf98c9b6456327c90a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:17 +0000
Subject: [PATCH 047/101] fix: constants in OPB maximization objectives have
 the wrong sign as costs

---
 src/instances/fio/opb.rs  | 3 ++-
 src/instances/multiopt.rs | 2 +-
 src/instances/opt.rs      | 5 ++++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/instances/fio/opb.rs b/src/instances/fio/opb.rs
index d6ee74e..4f4d267 100644
--- a/src/instances/fio/opb.rs
+++ b/src/instances/fio/opb.rs
@@ -196,7 +196,8 @@ impl Objective {
             .iter()
             .try_fold(0, |sum: usize, (coeff, _)| sum.checked_add(*coeff))
             .and_then(|sum| isize::try_from(sum).ok())
-            .is_some_and(|sum| self.offset.checked_sub(sum).is_some())
+            .and_then(|sum| self.offset.checked_neg()?.checked_sub(sum))
+            .is_some()
     }
 }
 
diff --git a/src/instances/multiopt.rs b/src/instances/multiopt.rs
index 5706240..b6ce7af 100644
--- a/src/instances/multiopt.rs
+++ b/src/instances/multiopt.rs
@@ -510,7 +510,7 @@ impl<VM: ManageVars + Default> FromIterator<fio::opb::Data> for MultiOptInstance
                                 .into_iter()
                                 .map(|(coeff, lit)| (!lit, coeff))
                                 .collect();
-                            obj.increase_offset(offset - coeff_sum);
+                            obj.increase_offset(-offset - coeff_sum);
                             obj
                         }
                     };
diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 49ec748..1b21d4a 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1640,7 +1640,10 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
                     .into_iter()
                     .map(|(coeff, lit)| (!lit, coeff))
                     .collect();
-                let Some(offset) = offset.checked_sub(coeff_sum) else {
+                let Some(offset) = offset
+                    .checked_neg()
+                    .and_then(|offset| offset.checked_sub(coeff_sum))
+                else {
                     return Err(super::fio::Error::ObjectiveConversionOverflow);
                 };
                 obj.increase_offset(offset);
-- 
2.43.0


From 1df4cfdd0b0ecc9ff6168ee93a1383c2bd544d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:18 +0000
Subject: [PATCH 048/101] fix: certified lower bounds via the inverted PB
 simulator are not encoded for the whole range

---
 src/encodings/pb/simulators.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encodings/pb/simulators.rs b/src/encodings/pb/simulators.rs
index 2237034..4e2460b 100644
--- a/src/encodings/pb/simulators.rs
+++ b/src/encodings/pb/simulators.rs
@@ -259,7 +259,7 @@ where
         W: std::io::Write,
     {
         self.pb_enc.encode_ub_cert(
-            self.convert_encoding_range(super::prepare_ub_range(self, range)),
+            self.convert_encoding_range(super::prepare_lb_range(self, range)),
             collector,
             var_manager,
             proof,
@@ -430,7 +430,7 @@ where
         W: std::io::Write,
     {
         self.pb_enc.encode_ub_change_cert(
-            self.convert_encoding_range(super::prepare_ub_range(self, range)),
+            self.convert_encoding_range(super::prepare_lb_range(self, range)),
             collector,
             var_manager,
             proof,
-- 
2.43.0


From 1c28ddda4f4e28c3709c4d92bedcb7fcb687ede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:18 +0000
Subject: [PATCH 049/101] fix: certified encoding of an unsatisfiable lower
 bound via the inverted simulator panics

---
 src/encodings/card/simulators.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/encodings/card/simulators.rs b/src/encodings/card/simulators.rs
index f166cf0..f941516 100644
--- a/src/encodings/card/simulators.rs
+++ b/src/encodings/card/simulators.rs
@@ -283,6 +283,9 @@ where
         W: std::io::Write,
         Self: FromIterator<Lit> + Sized,
     {
+        if constr.0.is_unsat() {
+            return Err(crate::encodings::cert::ConstraintEncodingError::Unsat);
+        }
         let constr = (constr.0.invert(), constr.1);
         CE::encode_ub_constr_cert(constr, collector, var_manager, proof)?;
         Ok(())
-- 
2.43.0


From 754b1de1a4c229640207b89032ce231fbe20f3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:18 +0000
Subject: [PATCH 050/101] fix: certified encoding of constraints with trivial
 bounds panics

---
 src/encodings/card/totalizer/mod.rs | 16 ++++++++++++++--
 src/encodings/pb/gte/mod.rs         |  2 +-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/encodings/card/totalizer/mod.rs b/src/encodings/card/totalizer/mod.rs
index 80eb6ad..92847f1 100644
--- a/src/encodings/card/totalizer/mod.rs
+++ b/src/encodings/card/totalizer/mod.rs
@@ -454,7 +454,7 @@ impl super::cert::BoundUpper for Totalizer {
 
         let (constr, id) = constr;
         let (lits, ub) = constr.decompose();
-        if ub > lits.len() {
+        if ub >= lits.len() {
             return Ok(());
         }
         let mut enc = Self::from_iter(lits);
@@ -562,6 +562,9 @@ impl super::cert::BoundLower for Totalizer {
         if lb > lits.len() {
             return Err(crate::encodings::cert::ConstraintEncodingError::Unsat);
         }
+        if lb == 0 {
+            return Ok(());
+        }
         let mut enc = Self::from_iter(lits);
         enc.encode_lb_cert(lb..=lb, collector, var_manager, proof)?;
         let (olit, sem_defs) = enc
@@ -666,10 +669,19 @@ impl super::cert::BoundBoth for Totalizer {
         // TODO: properly take care of constraints where no structure is built
 
         let (constr, id) = constr;
-        let (lits, b) = constr.decompose();
+        let (lits, &b) = constr.decompose_ref();
         if b > lits.len() {
             return Err(crate::encodings::cert::ConstraintEncodingError::Unsat);
         }
+        if b == 0 || b == lits.len() {
+            // one of the two bounds is trivial
+            use super::cert::BoundLower;
+            use super::cert::BoundUpper;
+            let (lb_c, ub_c) = constr.split();
+            Self::encode_ub_constr_cert((ub_c, id + 1), collector, var_manager, proof)?;
+            return Self::encode_lb_constr_cert((lb_c, id), collector, var_manager, proof);
+        }
+        let (lits, b) = constr.decompose();
         let mut enc = Self::from_iter(lits);
         enc.encode_both_cert(b..=b, collector, var_manager, proof)?;
         // UB
diff --git a/src/encodings/pb/gte/mod.rs b/src/encodings/pb/gte/mod.rs
index 679c725..2b00a6c 100644
--- a/src/encodings/pb/gte/mod.rs
+++ b/src/encodings/pb/gte/mod.rs
@@ -446,7 +446,7 @@ impl super::cert::BoundUpper for GeneralizedTotalizer {
             return Err(crate::encodings::cert::ConstraintEncodingError::Unsat);
         }
         let ub = ub.unsigned_abs();
-        if ub > lits.iter().fold(0, |sum, (_, w)| sum + *w) {
+        if ub >= lits.iter().fold(0, |sum, (_, w)| sum + *w) {
             return Ok(());
         }
         let mut enc = Self::from_iter(lits);
-- 
2.43.0


From c1217f64809d304d249c024d2e200fa8a1071bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:36 +0000
Subject: [PATCH 051/101] fix: totalizer `encode_both` omits clauses encoded by
 earlier calls

---
 src/encodings/card/totalizer/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/encodings/card/totalizer/mod.rs b/src/encodings/card/totalizer/mod.rs
index 92847f1..b0eafad 100644
--- a/src/encodings/card/totalizer/mod.rs
+++ b/src/encodings/card/totalizer/mod.rs
@@ -358,8 +358,11 @@ impl super::BoundBoth for Totalizer {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize> + Clone,
     {
-        self.encode_ub_change(range.clone(), collector, var_manager)?;
-        self.encode_lb_change(range, collector, var_manager)?;
+        use super::BoundLower;
+        use super::BoundUpper;
+
+        self.encode_ub(range.clone(), collector, var_manager)?;
+        self.encode_lb(range, collector, var_manager)?;
         Ok(())
     }
 }
@@ -639,11 +642,11 @@ impl super::cert::BoundBoth for Totalizer {
         R: std::ops::RangeBounds<usize> + Clone,
         W: std::io::Write,
     {
-        use super::cert::BoundLowerIncremental;
-        use super::cert::BoundUpperIncremental;
+        use super::cert::BoundLower;
+        use super::cert::BoundUpper;
 
-        self.encode_ub_change_cert(range.clone(), collector, var_manager, proof)?;
-        self.encode_lb_change_cert(range, collector, var_manager, proof)?;
+        self.encode_ub_cert(range.clone(), collector, var_manager, proof)?;
+        self.encode_lb_cert(range, collector, var_manager, proof)?;
         Ok(())
     }
 
-- 
2.43.0


From c9cf5220087db17a130a64d2592ca13c1f1ff154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:36 +0000
Subject: [PATCH 052/101] fix: literal of the highest variable in DIMACS files
 panics

---
 src/instances/fio/dimacs.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/instances/fio/dimacs.rs b/src/instances/fio/dimacs.rs
index b4741ef..b28a337 100644
--- a/src/instances/fio/dimacs.rs
+++ b/src/instances/fio/dimacs.rs
@@ -801,6 +801,8 @@ fn obj_idx(input: &mut &str) -> ModalResult<usize> {
 fn lit(input: &mut &str) -> ModalResult<Lit> {
     dec_int::<&str, i32, _>
         .try_map(Lit::from_ipasir)
+        // the highest index is reserved, since the number of variables needs to be representable
+        .verify(|l| l.vidx32() < Var::MAX_IDX)
         .context(StrContext::Label("IPASIR literal"))
         .parse_next(input)
 }
-- 
2.43.0


From dc564db89627acec0f76ed56e1b683ef2587912e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:47 +0000
Subject: [PATCH 053/101] fix: constraint IDs are wrong after an objective
 update with a subproof

---
 pigeons/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pigeons/src/lib.rs b/pigeons/src/lib.rs
index f986fb5..d6fe9ef 100644
--- a/pigeons/src/lib.rs
+++ b/pigeons/src/lib.rs
@@ -508,7 +508,14 @@ where
         C: ConstraintLike<V>,
     {
         assert!(matches!(self.problem_type, ProblemType::Optimization));
-        writeln!(self.writer, "obju {update}")
+        writeln!(self.writer, "obju {update}")?;
+        if let ObjectiveUpdate::New(_, subproof, _) = update {
+            // negated proof goal + 1 for each derivation
+            for goal in subproof {
+                self.next_id += 1 + goal.n_derivations();
+            }
+        }
+        Ok(())
     }
 
     /// Adds a set of substitutions
-- 
2.43.0


From b286ca8eea0a0c5d3a6f34e5c01e665dfd0e7975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:47 +0000
Subject: [PATCH 054/101] fix: objective offset is missing in the proof

---
 pigeons/src/types.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pigeons/src/types.rs b/pigeons/src/types.rs
index 0d38217..d926d96 100644
--- a/pigeons/src/types.rs
+++ b/pigeons/src/types.rs
@@ -902,7 +902,11 @@ impl<V: VarLike, O: ObjectiveLike<V>> std::fmt::Display for ObjFormatter<'_, V,
             self.obj
                 .sum_iter()
                 .format_with(" ", |(cf, ax), f| f(&format_args!("{cf} {ax}")))
-        )
+        )?;
+        match self.obj.offset() {
+            0 => Ok(()),
+            offset => write!(f, " {offset}"),
+        }
     }
 }
 
-- 
2.43.0


From 2c9b6dc6daf81539b4b65f8656bc8bb9703cb0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:08 +0000
Subject: [PATCH 055/101] fix: certified encoding of PB constraints with a unit
 weight derives clauses from the wrong constraint

---
 src/encodings/pb/cert.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/encodings/pb/cert.rs b/src/encodings/pb/cert.rs
index a873d20..0519491 100644
--- a/src/encodings/pb/cert.rs
+++ b/src/encodings/pb/cert.rs
@@ -347,6 +347,10 @@ pub fn encode_pb_constraint<
     var_manager: &mut dyn ManageVars,
     proof: &mut pigeons::Proof<W>,
 ) -> Result<(), EncodingError> {
+    use pigeons::OperationSequence;
+
+    use crate::types::Var;
+
     let (constr, mut id) = constr;
     if constr.is_tautology() {
         return Ok(());
@@ -383,6 +387,16 @@ pub fn encode_pb_constraint<
         return Ok(());
     }
     if constr.is_card() {
+        // bring the constraint in the proof into the form of the cardinality constraint
+        let unit_weight = constr.iter().next().map_or(1, |(_, w)| *w);
+        if unit_weight > 1 {
+            let card_id =
+                proof.operations(&(OperationSequence::<Var>::from(id) / unit_weight))?;
+            if matches!(constr, PbConstraint::Eq(_)) {
+                proof.operations(&(OperationSequence::<Var>::from(id + 1) / unit_weight))?;
+            }
+            id = card_id;
+        }
         let card = crate::utils::unreachable_err!(constr.into_card_constr());
         return card::cert::default_encode_cardinality_constraint(
             (card, id),
-- 
2.43.0


From d6a80de4e70a65506b00f9132788c13920c3ef03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:08 +0000
Subject: [PATCH 056/101] fix: certified encoding of unsatisfiable PB
 equalities is not justified by the proof

---
 src/encodings/pb/cert.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/encodings/pb/cert.rs b/src/encodings/pb/cert.rs
index 0519491..3d9fda6 100644
--- a/src/encodings/pb/cert.rs
+++ b/src/encodings/pb/cert.rs
@@ -357,7 +357,18 @@ pub fn encode_pb_constraint<
     }
     if constr.is_unsat() {
         let empty = crate::clause![];
-        let unsat_id = proof.reverse_unit_prop(&empty, [id.into()])?;
+        let unsat_id = if let PbConstraint::Eq(eq) = &constr {
+            let b = *eq.decompose_ref().1;
+            match eq.find_unit_weight() {
+                Some(weight) if weight > 0 && b.unsigned_abs() % weight != 0 => proof.operations(
+                    &(OperationSequence::<Var>::from(id) / weight
+                        + OperationSequence::<Var>::from(id + 1) / weight),
+                )?,
+                _ => proof.reverse_unit_prop(&empty, [id.into(), (id + 1).into()])?,
+            }
+        } else {
+            proof.reverse_unit_prop(&empty, [id.into()])?
+        };
         collector.add_cert_clause(empty, unsat_id)?;
         return Ok(());
     }
-- 
2.43.0


From 847e585ba2ea77218e3403aa4e67b207c691e592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:08 +0000
Subject: [PATCH 057/101] fix: certified totalizer encoding of constraints over
 a single literal panics

---
 src/encodings/card/totalizer/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/encodings/card/totalizer/mod.rs b/src/encodings/card/totalizer/mod.rs
index b0eafad..a66222f 100644
--- a/src/encodings/card/totalizer/mod.rs
+++ b/src/encodings/card/totalizer/mod.rs
@@ -460,6 +460,12 @@ impl super::cert::BoundUpper for Totalizer {
         if ub >= lits.len() {
             return Ok(());
         }
+        if let &[lit] = lits.as_slice() {
+            let unit_cl = crate::clause![!lit];
+            let unit_id = proof.reverse_unit_prop(&unit_cl, [id.into()])?;
+            collector.add_cert_clause(unit_cl, unit_id)?;
+            return Ok(());
+        }
         let mut enc = Self::from_iter(lits);
         enc.encode_ub_cert(ub..=ub, collector, var_manager, proof)?;
         let (olit, sem_defs) = enc
@@ -568,6 +574,12 @@ impl super::cert::BoundLower for Totalizer {
         if lb == 0 {
             return Ok(());
         }
+        if let &[lit] = lits.as_slice() {
+            let unit_cl = crate::clause![lit];
+            let unit_id = proof.reverse_unit_prop(&unit_cl, [id.into()])?;
+            collector.add_cert_clause(unit_cl, unit_id)?;
+            return Ok(());
+        }
         let mut enc = Self::from_iter(lits);
         enc.encode_lb_cert(lb..=lb, collector, var_manager, proof)?;
         let (olit, sem_defs) = enc
-- 
2.43.0


From cc0fe0ebb4b13c1a4da2d0a1ddbdc3e06d1f5ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:45 +0000
Subject: [PATCH 058/101] fix: certified GTE encoding of constraints with equal
 weights derives no unit clause

---
 src/encodings/pb/gte/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/encodings/pb/gte/mod.rs b/src/encodings/pb/gte/mod.rs
index 2b00a6c..b6ff4a9 100644
--- a/src/encodings/pb/gte/mod.rs
+++ b/src/encodings/pb/gte/mod.rs
@@ -477,9 +477,12 @@ impl super::cert::BoundUpper for GeneralizedTotalizer {
                 // output literal
                 // NOTE: by the time we're here, all buffered literals have been removed from `id`
                 debug_assert_eq!(!unit, olit);
+                // NOTE: the semantics are defined over the tree without the weight at the root
+                let multiplier = enc.root.map_or(1, |con| con.multiplier());
                 let unit_id = proof.operations(
                     &((pigeons::OperationSequence::<Var>::from(id)
-                        + sem_defs.only_if_def.unwrap())
+                        + pigeons::OperationSequence::<Var>::from(sem_defs.only_if_def.unwrap())
+                            * multiplier)
                         / val),
                 )?;
                 #[cfg(feature = "verbose-proofs")]
-- 
2.43.0


From 13c04c5b992848ba1c11177afb468b6cf1ffd00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:46 +0000
Subject: [PATCH 059/101] fix: certified GTE encoding panics if literals with
 weights larger than the bound are enforced

---
 src/encodings/pb/gte/mod.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/encodings/pb/gte/mod.rs b/src/encodings/pb/gte/mod.rs
index b6ff4a9..3dd15e9 100644
--- a/src/encodings/pb/gte/mod.rs
+++ b/src/encodings/pb/gte/mod.rs
@@ -456,13 +456,9 @@ impl super::cert::BoundUpper for GeneralizedTotalizer {
             .enforce_ub(ub)
             .expect("should have caught special case before here")
         {
-            let (olit, sem_defs) = enc
-                .output_proof_details(val)
-                .expect("encoded just before, so should be fine");
             let unit_cl = crate::clause![unit];
-            let unit_id = if unit.var() < olit.var() {
+            let unit_id = if let Some(&weight) = enc.lit_buffer.get(&!unit) {
                 // input literal with weight larger than bound
-                let weight = *enc.lit_buffer.get(&!unit).unwrap();
                 let unit_id = proof.reverse_unit_prop(&unit_cl, [id.into()])?;
                 // simplify main constraint
                 #[cfg(feature = "verbose-proofs")]
@@ -475,6 +471,9 @@ impl super::cert::BoundUpper for GeneralizedTotalizer {
                 unit_id
             } else {
                 // output literal
+                let (olit, sem_defs) = enc
+                    .output_proof_details(val)
+                    .expect("encoded just before, so should be fine");
                 // NOTE: by the time we're here, all buffered literals have been removed from `id`
                 debug_assert_eq!(!unit, olit);
                 // NOTE: the semantics are defined over the tree without the weight at the root
-- 
2.43.0


From 5532abaacc770feca4ac8581fb52447d61e2d3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:50 +0000
Subject: [PATCH 060/101] fix: Minisat and Glucose report the value of the
 variable for negated literals

Variables unknown to the model are also not read out of bounds anymore.
---
 glucose/vendor/cglucose4.cc        | 7 +++++--
 minisat/vendor/minisat/cminisat.cc | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/glucose/vendor/cglucose4.cc b/glucose/vendor/cglucose4.cc
index 85953ca..07eb871 100644
--- a/glucose/vendor/cglucose4.cc
+++ b/glucose/vendor/cglucose4.cc
@@ -135,8 +135,11 @@ int cglucosesimp4_solve(CGlucoseSimp4 *handle, const c_Lit *assumps,
 
 int cglucose4_val(CGlucose4 *handle, c_Lit lit) {
   Solver *solver = (Solver *)handle;
-  Var v = var(Lit{lit.x});
-  lbool val = solver->modelValue(v);
+  // variables that were added after the model was found have no value
+  if (var(Lit{lit.x}) >= solver->model.size()) {
+    return T_UNASSIGNED;
+  }
+  lbool val = solver->modelValue(Lit{lit.x});
   if (val == l_True) {
     return T_TRUE;
   }
diff --git a/minisat/vendor/minisat/cminisat.cc b/minisat/vendor/minisat/cminisat.cc
index 5b998e9..5d7a70b 100644
--- a/minisat/vendor/minisat/cminisat.cc
+++ b/minisat/vendor/minisat/cminisat.cc
@@ -131,8 +131,11 @@ int cminisatsimp_solve(CMinisatSimp *handle, const c_Lit *assumps,
 
 int cminisat_val(CMinisat *handle, c_Lit lit) {
   Solver *solver = (Solver *)handle;
-  Var v = var(Lit{lit.x});
-  lbool val = solver->modelValue(v);
+  // variables that were added after the model was found have no value
+  if (var(Lit{lit.x}) >= solver->model.size()) {
+    return T_UNASSIGNED;
+  }
+  lbool val = solver->modelValue(Lit{lit.x});
   if (val == l_True) {
     return T_TRUE;
   }
-- 
2.43.0


From 60996a43ad8b89800a219d3e6f96e1514767f28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:50 +0000
Subject: [PATCH 061/101] fix: Minisat and Glucose add a variable for empty
 clauses and solve calls

---
 glucose/vendor/cglucose4.cc        | 2 +-
 minisat/vendor/minisat/cminisat.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/glucose/vendor/cglucose4.cc b/glucose/vendor/cglucose4.cc
index 07eb871..8e03ae9 100644
--- a/glucose/vendor/cglucose4.cc
+++ b/glucose/vendor/cglucose4.cc
@@ -64,7 +64,7 @@ void cglucosesimp4_release(CGlucoseSimp4 *handle) {
 
 void cglucose4_ensure_vars(Solver *solver, const Lit *lits, size_t n_lits) {
   // find max variable in clause
-  Var max_v = 0;
+  Var max_v = var_Undef;
   for (size_t i = 0; i < n_lits; i++) {
     if (var(lits[i]) > max_v) {
       max_v = var(lits[i]);
diff --git a/minisat/vendor/minisat/cminisat.cc b/minisat/vendor/minisat/cminisat.cc
index 5d7a70b..09cc963 100644
--- a/minisat/vendor/minisat/cminisat.cc
+++ b/minisat/vendor/minisat/cminisat.cc
@@ -62,7 +62,7 @@ void cminisatsimp_release(CMinisatSimp *handle) { delete (SimpSolver *)handle; }
 
 void cminisat_ensure_vars(Solver *solver, const Lit *lits, size_t n_lits) {
   // find max variable in clause
-  Var max_v = 0;
+  Var max_v = var_Undef;
   for (size_t i = 0; i < n_lits; i++) {
     if (var(lits[i]) > max_v) {
       max_v = var(lits[i]);
-- 
2.43.0


From 7f18e57900ac5284bf27fd5ce5aa122d05af5604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:31 +0000
Subject: [PATCH 062/101] fix: checking for elimination of an unknown variable
 reads out of bounds in Minisat and Glucose

---
 glucose/src/simp.rs | 7 +++++++
 minisat/src/simp.rs | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/glucose/src/simp.rs b/glucose/src/simp.rs
index e9da68f..2f781ee 100644
--- a/glucose/src/simp.rs
+++ b/glucose/src/simp.rs
@@ -72,6 +72,13 @@ impl Glucose {
 
     /// Checks if a variable has been eliminated by preprocessing.
     pub fn var_eliminated(&mut self, var: rustsat::types::Var) -> bool {
+        use rustsat::solvers::SolveStats;
+
+        match self.max_var() {
+            None => return false,
+            Some(max) if max < var => return false,
+            _ => (),
+        }
         (unsafe {
             #[expect(clippy::cast_possible_wrap)]
             crate::ffi::cglucosesimp4_is_eliminated(self.handle, var.idx32() as c_int)
diff --git a/minisat/src/simp.rs b/minisat/src/simp.rs
index fb0b90e..4585d11 100644
--- a/minisat/src/simp.rs
+++ b/minisat/src/simp.rs
@@ -73,6 +73,13 @@ impl Minisat {
 
     /// Checks if a variable has been eliminated by preprocessing.
     pub fn var_eliminated(&mut self, var: Var) -> bool {
+        use rustsat::solvers::SolveStats;
+
+        match self.max_var() {
+            None => return false,
+            Some(max) if max < var => return false,
+            _ => (),
+        }
         (unsafe {
             #[expect(clippy::cast_possible_wrap)]
             crate::ffi::cminisatsimp_is_eliminated(self.handle, var.idx32() as c_int)
-- 
2.43.0


From d5794981924c0f6a9380ad6fb9c7bd8076946734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:31 +0000
Subject: [PATCH 063/101] fix: average clause length in BatSat is wrong if
 clauses are not stored internally

---
 batsat/src/lib.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/batsat/src/lib.rs b/batsat/src/lib.rs
index 6c508bb..77d29fc 100644
--- a/batsat/src/lib.rs
+++ b/batsat/src/lib.rs
@@ -63,6 +63,7 @@ pub struct Solver<Cb: batsat::Callbacks> {
     n_sat: usize,
     n_unsat: usize,
     n_terminated: usize,
+    n_added: usize,
     avg_clause_len: f32,
     cpu_time: std::time::Duration,
 }
@@ -75,6 +76,7 @@ impl<Cb: batsat::Callbacks> std::fmt::Debug for Solver<Cb> {
             .field("n_sat", &self.n_sat)
             .field("n_unsat", &self.n_unsat)
             .field("n_terminated", &self.n_terminated)
+            .field("n_added", &self.n_added)
             .field("avg_clause_len", &self.avg_clause_len)
             .field("cpu_time", &self.cpu_time)
             .finish()
@@ -97,11 +99,10 @@ impl<Cb: batsat::Callbacks> Solver<Cb> {
     #[expect(clippy::cast_precision_loss)]
     #[inline]
     fn update_avg_clause_len(&mut self, clause: &Cl) {
-        use rustsat::solvers::SolveStats;
-
-        self.avg_clause_len = (self.avg_clause_len * ((self.n_clauses()) as f32)
-            + clause.len() as f32)
-            / (self.n_clauses() + 1) as f32;
+        // The number of clauses in the internal solver does not include, e.g., units
+        self.avg_clause_len = (self.avg_clause_len * (self.n_added as f32) + clause.len() as f32)
+            / (self.n_added + 1) as f32;
+        self.n_added += 1;
     }
 
     fn solve_track_stats(&mut self, assumps: &[Lit]) -> SolverResult {
-- 
2.43.0


From 1030d8b9b0e4ed7216b3c216ce2150c61a4cf28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:40 +0000
Subject: [PATCH 064/101] fix: full solutions of IPASIR solvers do not include
 assumptions over new variables

---
 ipasir/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipasir/src/lib.rs b/ipasir/src/lib.rs
index a186b1b..e00b2ac 100644
--- a/ipasir/src/lib.rs
+++ b/ipasir/src/lib.rs
@@ -258,6 +258,11 @@ impl rustsat::solvers::Solve for IpasirSolver<'_, '_> {
 
 impl rustsat::solvers::SolveIncremental for IpasirSolver<'_, '_> {
     fn solve_assumps(&mut self, assumps: &[Lit]) -> anyhow::Result<SolverResult> {
+        // Solutions have to cover the assumptions
+        self.stats.max_var = self
+            .stats
+            .max_var
+            .max(assumps.iter().map(|lit| lit.var()).max());
         // If in error state, remain there
         // If not, need to resolve because assumptions might have changed
         let start = rustsat::utils::Timer::now();
-- 
2.43.0


From 63263782af1785f15264ddeae1e29a27dde61ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:40 +0000
Subject: [PATCH 065/101] fix: detaching the learner frees the terminator
 instead of the learner

---
 cadical/src/lib.rs | 2 +-
 ipasir/src/lib.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index c15b779..dbee2ad 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -936,7 +936,7 @@ impl<'learn> rustsat::solvers::Learn<'learn> for CaDiCaL<'_, 'learn> {
     }
 
     fn detach_learner(&mut self) {
-        self.terminate_cb = None;
+        self.learner_cb = None;
         unsafe { ffi::ccadical_set_learn(self.handle, std::ptr::null_mut(), 0, None) }
     }
 }
diff --git a/ipasir/src/lib.rs b/ipasir/src/lib.rs
index e00b2ac..a45050f 100644
--- a/ipasir/src/lib.rs
+++ b/ipasir/src/lib.rs
@@ -403,7 +403,7 @@ impl<'learn> rustsat::solvers::Learn<'learn> for IpasirSolver<'_, 'learn> {
     }
 
     fn detach_learner(&mut self) {
-        self.terminate_cb = None;
+        self.learner_cb = None;
         unsafe { ffi::ipasir_set_learn(self.handle, std::ptr::null(), 0, None) }
     }
 }
-- 
2.43.0


From 60b80766e220d20947542be33683da587acedc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:19 +0000
Subject: [PATCH 066/101] fix: Glucose with preprocessing reports the core of
 an earlier query

---
 glucose/vendor/cglucose4.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/glucose/vendor/cglucose4.cc b/glucose/vendor/cglucose4.cc
index 8e03ae9..c8a8b63 100644
--- a/glucose/vendor/cglucose4.cc
+++ b/glucose/vendor/cglucose4.cc
@@ -115,6 +115,8 @@ int cglucose4_solve(CGlucose4 *handle, const c_Lit *c_assumps,
   lbool res;
   try {
     cglucose4_ensure_vars(solver, assumps, n_assumps);
+    // if preprocessing finds the empty clause, the core of the previous query is not cleared
+    solver->conflict.clear();
     res = solver->solveLimited(assumps, (int)n_assumps);
   } catch (OutOfMemoryException &) {
     return OUT_OF_MEM;
-- 
2.43.0


From 02b14b3d799250172bc80e7c3ceab733b71fde2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:19 +0000
Subject: [PATCH 067/101] fix: reserving variables in Kissat after solving
 allows adding clauses to the solved instance

---
 kissat/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kissat/src/lib.rs b/kissat/src/lib.rs
index 5bf55c6..3390259 100644
--- a/kissat/src/lib.rs
+++ b/kissat/src/lib.rs
@@ -297,7 +297,10 @@ impl rustsat::solvers::Solve for Kissat<'_> {
     }
 
     fn reserve(&mut self, max_var: Var) -> anyhow::Result<()> {
-        self.state = InternalSolverState::Input;
+        // Reserving does not invalidate results, and solved instances cannot be extended
+        if self.state == InternalSolverState::Configuring {
+            self.state = InternalSolverState::Input;
+        }
         unsafe { ffi::kissat_reserve(self.handle, max_var.to_ipasir()) };
         Ok(())
     }
-- 
2.43.0


From c880bb4a76d45f4e6a41f9ff938581254ff93713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:25 +0000
Subject: [PATCH 068/101] fix: CaDiCaL writes debugging output to stderr when
 propagating

---
 cadical/src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index dbee2ad..906634c 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -1089,7 +1089,6 @@ impl rustsat::solvers::Propagate for CaDiCaL<'_, '_> {
         }
         let res = handle_oom!(unsafe { ffi::ccadical_propagate(self.handle) });
         let mut props = Vec::new();
-        dbg!(res);
         match res {
             0 => {
                 let prop_ptr: *mut Vec<Lit> = &raw mut props;
-- 
2.43.0


From 7921fedfaeb9cb1043ee628c84561e862889ad9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:25 +0000
Subject: [PATCH 069/101] fix: propagating literals of unknown variables reads
 out of bounds in Minisat and Glucose

---
 glucose/vendor/cglucose4.cc        | 1 +
 minisat/vendor/minisat/cminisat.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/glucose/vendor/cglucose4.cc b/glucose/vendor/cglucose4.cc
index c8a8b63..238c64d 100644
--- a/glucose/vendor/cglucose4.cc
+++ b/glucose/vendor/cglucose4.cc
@@ -295,6 +295,7 @@ int cglucose4_propcheck(CGlucose4 *handle, const c_Lit *assumps,
   Solver *solver = (Solver *)handle;
   bool res;
   try {
+    cglucose4_ensure_vars(solver, (const Lit *)assumps, n_assumps);
     res = solver->propCheck((Lit *)assumps, n_assumps, psaving,
                             (void (*)(void *, Lit))prop_cb, cb_data);
   } catch (OutOfMemoryException &) {
diff --git a/minisat/vendor/minisat/cminisat.cc b/minisat/vendor/minisat/cminisat.cc
index 09cc963..5339e5c 100644
--- a/minisat/vendor/minisat/cminisat.cc
+++ b/minisat/vendor/minisat/cminisat.cc
@@ -289,6 +289,7 @@ int cminisat_propcheck(CMinisat *handle, const c_Lit *assumps, size_t n_assumps,
   Solver *solver = (Solver *)handle;
   bool res;
   try {
+    cminisat_ensure_vars(solver, (const Lit *)assumps, n_assumps);
     res = solver->propCheck((Lit *)assumps, n_assumps, psaving,
                             (void (*)(void *, Lit))prop_cb, cb_data);
   } catch (OutOfMemoryException &) {
-- 
2.43.0


From 2f3feccd85434e6a80ba265770558408423eb657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:12 +0000
Subject: [PATCH 070/101] fix: attaching a learner without a length limit
 panics

---
 cadical/src/lib.rs | 2 +-
 ipasir/src/lib.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index 906634c..a78130a 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -929,7 +929,7 @@ impl<'learn> rustsat::solvers::Learn<'learn> for CaDiCaL<'_, 'learn> {
             ffi::ccadical_set_learn(
                 self.handle,
                 cb_ptr,
-                max_len.try_into().unwrap(),
+                c_int::try_from(max_len).unwrap_or(c_int::MAX),
                 Some(ffi::rustsat_ccadical_learn_cb),
             );
         }
diff --git a/ipasir/src/lib.rs b/ipasir/src/lib.rs
index a45050f..08c7815 100644
--- a/ipasir/src/lib.rs
+++ b/ipasir/src/lib.rs
@@ -396,7 +396,7 @@ impl<'learn> rustsat::solvers::Learn<'learn> for IpasirSolver<'_, 'learn> {
             ffi::ipasir_set_learn(
                 self.handle,
                 cb_ptr,
-                max_len.try_into().unwrap(),
+                c_int::try_from(max_len).unwrap_or(c_int::MAX),
                 Some(ffi::ipasir_learn_cb),
             );
         }
-- 
2.43.0


From ea2b0a2ddecf9dc1002ee89a0d10f16d20fafd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:12 +0000
Subject: [PATCH 071/101] fix: removing a limit in Minisat and Glucose limits
 the solver to the effort spent so far

---
 glucose/vendor/core/Solver.h         | 4 ++--
 minisat/vendor/minisat/core/Solver.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/glucose/vendor/core/Solver.h b/glucose/vendor/core/Solver.h
index 7217a97..91198ae 100755
--- a/glucose/vendor/core/Solver.h
+++ b/glucose/vendor/core/Solver.h
@@ -584,8 +584,8 @@ inline void     Solver::setDecisionVar(Var v, bool b)
     decision[v] = b;
     insertVarOrder(v);
 }
-inline void     Solver::setConfBudget(int64_t x){ conflict_budget    = conflicts    + x; }
-inline void     Solver::setPropBudget(int64_t x){ propagation_budget = propagations + x; }
+inline void     Solver::setConfBudget(int64_t x){ conflict_budget    = x < 0 ? -1 : conflicts    + x; }
+inline void     Solver::setPropBudget(int64_t x){ propagation_budget = x < 0 ? -1 : propagations + x; }
 inline void     Solver::interrupt(){ asynch_interrupt = true; }
 inline void     Solver::clearInterrupt(){ asynch_interrupt = false; }
 inline void     Solver::budgetOff(){ conflict_budget = propagation_budget = -1; }
diff --git a/minisat/vendor/minisat/core/Solver.h b/minisat/vendor/minisat/core/Solver.h
index 73683a7..e6dd5fb 100644
--- a/minisat/vendor/minisat/core/Solver.h
+++ b/minisat/vendor/minisat/core/Solver.h
@@ -374,8 +374,8 @@ inline void     Solver::setDecisionVar(Var v, bool b)
     decision[v] = b;
     insertVarOrder(v);
 }
-inline void     Solver::setConfBudget(int64_t x){ conflict_budget    = conflicts    + x; }
-inline void     Solver::setPropBudget(int64_t x){ propagation_budget = propagations + x; }
+inline void     Solver::setConfBudget(int64_t x){ conflict_budget    = x < 0 ? -1 : conflicts    + x; }
+inline void     Solver::setPropBudget(int64_t x){ propagation_budget = x < 0 ? -1 : propagations + x; }
 inline void     Solver::interrupt(){ asynch_interrupt = true; }
 inline void     Solver::clearInterrupt(){ asynch_interrupt = false; }
 inline void     Solver::budgetOff(){ conflict_budget = propagation_budget = -1; }
-- 
2.43.0


From c36bbc24eba29da7b2fd080f640e313835662255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:12 +0000
Subject: [PATCH 072/101] fix: Minisat and Glucose cannot solve anymore after
 having been interrupted

---
 glucose/vendor/cglucose4.cc        | 2 ++
 minisat/vendor/minisat/cminisat.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/glucose/vendor/cglucose4.cc b/glucose/vendor/cglucose4.cc
index 238c64d..bcedc69 100644
--- a/glucose/vendor/cglucose4.cc
+++ b/glucose/vendor/cglucose4.cc
@@ -118,6 +118,8 @@ int cglucose4_solve(CGlucose4 *handle, const c_Lit *c_assumps,
     // if preprocessing finds the empty clause, the core of the previous query is not cleared
     solver->conflict.clear();
     res = solver->solveLimited(assumps, (int)n_assumps);
+    // an interrupt only concerns the current call
+    solver->clearInterrupt();
   } catch (OutOfMemoryException &) {
     return OUT_OF_MEM;
   }
diff --git a/minisat/vendor/minisat/cminisat.cc b/minisat/vendor/minisat/cminisat.cc
index 5339e5c..45ab8fa 100644
--- a/minisat/vendor/minisat/cminisat.cc
+++ b/minisat/vendor/minisat/cminisat.cc
@@ -112,6 +112,8 @@ int cminisat_solve(CMinisat *handle, const c_Lit *c_assumps, size_t n_assumps) {
   try {
     cminisat_ensure_vars(solver, assumps, n_assumps);
     res = solver->solveLimited(assumps, (int)n_assumps);
+    // an interrupt only concerns the current call
+    solver->clearInterrupt();
   } catch (OutOfMemoryException &) {
     return OUT_OF_MEM;
   }
-- 
2.43.0


From bd8ed100df6c021f34a67ff3d94ad96bbb788187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:39 +0000
Subject: [PATCH 073/101] fix: using Kissat after an interrupted call aborts
 the process

---
 kissat/src/lib.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/kissat/src/lib.rs b/kissat/src/lib.rs
index 3390259..4b9bbbd 100644
--- a/kissat/src/lib.rs
+++ b/kissat/src/lib.rs
@@ -76,6 +76,13 @@ pub struct InvalidApiReturn {
     value: c_int,
 }
 
+/// Error returned if the solver is used after having been interrupted
+///
+/// Kissat is non-incremental and can neither extend an instance nor continue solving it
+#[derive(thiserror::Error, Clone, Copy, PartialEq, Eq, Debug)]
+#[error("kissat cannot be used anymore after having been interrupted")]
+pub struct AfterInterrupt;
+
 #[derive(Debug, PartialEq, Eq, Default)]
 enum InternalSolverState {
     #[default]
@@ -313,6 +320,9 @@ impl rustsat::solvers::Solve for Kissat<'_> {
         if let InternalSolverState::Unsat(_) = self.state {
             return Ok(SolverResult::Unsat);
         }
+        if self.stats.n_terminated > 0 {
+            return Err(AfterInterrupt.into());
+        }
         let start = rustsat::utils::Timer::now();
         // Solve with Kissat backend
         let res = unsafe { ffi::kissat_solve(self.handle) };
@@ -377,6 +387,9 @@ impl rustsat::solvers::Solve for Kissat<'_> {
             }
             .into());
         }
+        if self.stats.n_terminated > 0 {
+            return Err(AfterInterrupt.into());
+        }
         let clause = clause.as_ref();
         // Update wrapper-internal state
         self.stats.n_clauses += 1;
-- 
2.43.0


From 25a58a81187a7bf5a1b8140b53bb94f439894a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:09 +0000
Subject: [PATCH 074/101] fix: empty clauses add a variable to the statistics
 of simulated incremental solvers

---
 src/solvers/simulators.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/solvers/simulators.rs b/src/solvers/simulators.rs
index 83d63b1..63992c9 100644
--- a/src/solvers/simulators.rs
+++ b/src/solvers/simulators.rs
@@ -73,12 +73,8 @@ impl<S, Init> Incremental<S, Init> {
 
     #[inline]
     fn update_max_var(&mut self, clause: &Cl) {
-        if self.stats.max_var.is_none() {
-            self.stats.max_var = Some(crate::types::Var::new(0));
-        }
-        let max_var = self.stats.max_var.as_mut().unwrap();
         for lit in clause {
-            *max_var = std::cmp::max(*max_var, lit.var());
+            self.stats.max_var = std::cmp::max(self.stats.max_var, Some(lit.var()));
         }
     }
 }
-- 
2.43.0


From c68718f5e55c49b4a039011fa8f9280f68f6b96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:09 +0000
Subject: [PATCH 075/101] fix: full solutions of simulated incremental solvers
 do not include assumptions over new variables

---
 src/solvers/simulators.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solvers/simulators.rs b/src/solvers/simulators.rs
index 63992c9..04e1aa4 100644
--- a/src/solvers/simulators.rs
+++ b/src/solvers/simulators.rs
@@ -188,6 +188,8 @@ where
         }
         for lit in assumps {
             self.solver.add_unit(*lit)?;
+            // the solution includes the assumptions
+            self.stats.max_var = std::cmp::max(self.stats.max_var, Some(lit.var()));
         }
         let res = self.solver.solve()?;
         self.stats.cpu_solve_time += start.elapsed();
-- 
2.43.0


From 6c028284a53c784b5837847cf6c8685f084b3557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:47 +0000
Subject: [PATCH 076/101] fix: CaDiCaL stays unsatisfiable after a temporary
 clause made a query unsatisfiable

---
 cadical/src/lib.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index a78130a..cec6a0b 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -251,6 +251,17 @@ impl CaDiCaL<'_, '_> {
         Ok(core)
     }
 
+    /// Checks whether the last call found the clauses to be unsatisfiable on their own, i.e.,
+    /// without assumptions or a temporary clause
+    fn is_unsat(&self) -> bool {
+        match &self.state {
+            InternalSolverState::Unsat(core) => {
+                core.is_empty() && unsafe { ffi::ccadical_constraint_failed(self.handle) } == 0
+            }
+            _ => false,
+        }
+    }
+
     #[expect(clippy::cast_precision_loss)]
     #[inline]
     fn update_avg_clause_len(&mut self, clause: &Cl) {
@@ -716,10 +727,8 @@ impl rustsat::solvers::Solve for CaDiCaL<'_, '_> {
         if let InternalSolverState::Sat = self.state {
             return Ok(SolverResult::Sat);
         }
-        if let InternalSolverState::Unsat(core) = &self.state {
-            if core.is_empty() {
-                return Ok(SolverResult::Unsat);
-            }
+        if self.is_unsat() {
+            return Ok(SolverResult::Unsat);
         }
         let start = rustsat::utils::Timer::now();
         // Solve with CaDiCaL backend
-- 
2.43.0


From 8587d658ce3a902bda0c081f23ab808970f696a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:47 +0000
Subject: [PATCH 077/101] fix: simplification with CaDiCaL reports the result
 of earlier assumptions and no core

---
 cadical/src/lib.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index cec6a0b..a42c0dd 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -486,7 +486,7 @@ impl CaDiCaL<'_, '_> {
         if let InternalSolverState::Sat = self.state {
             return Ok(SolverResult::Sat);
         }
-        if let InternalSolverState::Unsat(_) = self.state {
+        if self.is_unsat() {
             return Ok(SolverResult::Unsat);
         }
         let rounds: c_int = rounds.try_into()?;
@@ -534,11 +534,8 @@ impl CaDiCaL<'_, '_> {
         assumps: &[Lit],
         rounds: u32,
     ) -> anyhow::Result<SolverResult> {
-        // If already solved, return state
-        if let InternalSolverState::Sat = self.state {
-            return Ok(SolverResult::Sat);
-        }
-        if let InternalSolverState::Unsat(_) = self.state {
+        // If unsatisfiable without assumptions, return state
+        if self.is_unsat() {
             return Ok(SolverResult::Unsat);
         }
         let rounds: c_int = rounds.try_into()?;
@@ -556,7 +553,7 @@ impl CaDiCaL<'_, '_> {
                 Ok(SolverResult::Sat)
             }
             20 => {
-                self.state = InternalSolverState::Unsat(vec![]);
+                self.state = InternalSolverState::Unsat(self.get_core_assumps(assumps)?);
                 Ok(SolverResult::Unsat)
             }
             value => Err(InvalidApiReturn {
-- 
2.43.0


From c778d3ac9d066a56eb373158bf8ffc186bc8a698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:34 +0000
Subject: [PATCH 078/101] fix: disconnecting a proof tracer from the wrong
 solver frees it while it is used

---
 cadical/cpp-extension/ctracer.cpp | 4 +++-
 cadical/src/prooftracer.rs        | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/cadical/cpp-extension/ctracer.cpp b/cadical/cpp-extension/ctracer.cpp
index 0dc8c04..33e6c87 100644
--- a/cadical/cpp-extension/ctracer.cpp
+++ b/cadical/cpp-extension/ctracer.cpp
@@ -149,7 +149,9 @@ bool ccadical_disconnect_proof_tracer(CCaDiCaL *wrapper,
                                       CCaDiCaLTracer *tracer) {
   bool ret =
       ((Wrapper *)wrapper)->solver->disconnect_proof_tracer((Tracer *)tracer);
-  delete (CaDiCaL::CTracer *)tracer;
+  // if the tracer was not found, another solver is still using it
+  if (ret)
+    delete (CaDiCaL::CTracer *)tracer;
   return ret;
 }
 }
diff --git a/cadical/src/prooftracer.rs b/cadical/src/prooftracer.rs
index eb8bbcd..0c82253 100644
--- a/cadical/src/prooftracer.rs
+++ b/cadical/src/prooftracer.rs
@@ -188,7 +188,8 @@ impl super::CaDiCaL<'_, '_> {
     ///
     /// # Errors
     ///
-    /// If the handle is not connected to the given solver, returns [`ProofTracerNotConnected`]
+    /// If the handle is not connected to the given solver, returns [`ProofTracerNotConnected`]. In
+    /// this case, the proof tracer is leaked, since the solver it is connected to still uses it.
     // We intentionally pass the handle by value here so that it cannot be used afterwards, since
     // it is not Clone of Copy
     pub fn disconnect_proof_tracer<PT>(
@@ -199,6 +200,8 @@ impl super::CaDiCaL<'_, '_> {
         PT: TraceProof + 'static,
     {
         if !unsafe { crate::ffi::ccadical_disconnect_proof_tracer(self.handle, handle.c_class) } {
+            // the solver that the tracer is connected to still uses it, so it must not be dropped
+            std::mem::forget(handle);
             return Err(ProofTracerNotConnected);
         }
         let trait_ptr = unsafe { Box::from_raw(handle.trait_ptr) };
-- 
2.43.0


From fbc5f33abc5456dfd2010af7a9d2f850776f5659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:33 +0000
Subject: [PATCH 079/101] fix: solution-improving search is wrong if the solver
 does not know all objective variables

---
 src/algs/maxsat.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/algs/maxsat.rs b/src/algs/maxsat.rs
index 829dc6b..7858e1a 100644
--- a/src/algs/maxsat.rs
+++ b/src/algs/maxsat.rs
@@ -61,10 +61,15 @@ where
     type Solver = Solver;
 
     fn solve(solver: &mut Self::Solver, objective: &[(Lit, usize)]) -> Option<(Assignment, usize)> {
-        let Some(max_var) = solver.max_var() else {
-            return Some((Assignment::default(), 0));
-        };
-        let mut vm = crate::instances::BasicVarManager::from_next_free(max_var + 1);
+        // the objective might contain variables that the solver does not know about
+        let max_var = objective
+            .iter()
+            .map(|(l, _)| l.var())
+            .chain(solver.max_var())
+            .max();
+        let mut vm = max_var.map_or_else(crate::instances::BasicVarManager::default, |max_var| {
+            crate::instances::BasicVarManager::from_next_free(max_var + 1)
+        });
         let mut enc: PbEnc = objective.iter().copied().collect();
 
         let mut sol = None;
@@ -72,7 +77,14 @@ where
         loop {
             match solver.solve().expect("solver error while solving") {
                 SolverResult::Sat => {
-                    let assign = solver.solution(max_var).expect("failed getting solution");
+                    let mut assign = max_var.map_or_else(Assignment::default, |max_var| {
+                        solver.solution(max_var).expect("failed getting solution")
+                    });
+                    for (l, _) in objective {
+                        if assign.lit_value(*l) == crate::types::TernaryVal::DontCare {
+                            assign.assign_lit(!*l);
+                        }
+                    }
                     let val = objective_value(objective, &assign);
                     sol = Some((assign, val));
                     if val == 0 {
-- 
2.43.0


From a3ae489279610a5d208f90c9c13da42f52776e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:44 +0000
Subject: [PATCH 080/101] fix: enforcing a bound that needs no assumption on a
 C totalizer aborts

---
 capi/rustsat.h                    |  4 ++++
 capi/src/encodings/card.rs        | 12 ++++++++----
 codegen/templates/capi-card.rs.j2 | 12 ++++++++----
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/capi/rustsat.h b/capi/rustsat.h
index 1b3abcc..31d6023 100644
--- a/capi/rustsat.h
+++ b/capi/rustsat.h
@@ -539,6 +539,8 @@ void tot_encode_ub(struct Totalizer *tot,
  * [`tot_encode_ub`] has been called adequately and nothing has been called afterwards, otherwise
  * [`super::MaybeError::NotEncoded`] will be returned.
  *
+ * If the bound holds without an assumption, `assump` is set to `0`.
+ *
  * # Safety
  *
  * `tot` must be a return value of [`tot_new`] that [`tot_drop`] has not yet been called on.
@@ -579,6 +581,8 @@ void tot_encode_lb(struct Totalizer *tot,
  * [`tot_encode_lb`] has been called adequately and nothing has been called afterwards, otherwise
  * [`super::MaybeError::NotEncoded`] will be returned.
  *
+ * If the bound holds without an assumption, `assump` is set to `0`.
+ *
  * # Safety
  *
  * `tot` must be a return value of [`tot_new`] that [`tot_drop`] has not yet been called on.
diff --git a/capi/src/encodings/card.rs b/capi/src/encodings/card.rs
index 571c63f..a2b31b1 100644
--- a/capi/src/encodings/card.rs
+++ b/capi/src/encodings/card.rs
@@ -100,6 +100,8 @@ pub unsafe extern "C" fn tot_encode_ub(
 /// [`tot_encode_ub`] has been called adequately and nothing has been called afterwards, otherwise
 /// [`super::MaybeError::NotEncoded`] will be returned.
 ///
+/// If the bound holds without an assumption, `assump` is set to `0`.
+///
 /// # Safety
 ///
 /// `tot` must be a return value of [`tot_new`] that [`tot_drop`] has not yet been called on.
@@ -111,8 +113,8 @@ pub unsafe extern "C" fn tot_enforce_ub(
 ) -> super::MaybeError {
     match (*tot).enforce_ub(ub) {
         Ok(assumps) => {
-            debug_assert_eq!(assumps.len(), 1);
-            *assump = assumps[0].to_ipasir();
+            debug_assert!(assumps.len() <= 1);
+            *assump = assumps.first().map_or(0, |lit| lit.to_ipasir());
             super::MaybeError::Ok
         }
         Err(err) => err.into(),
@@ -159,6 +161,8 @@ pub unsafe extern "C" fn tot_encode_lb(
 /// [`tot_encode_lb`] has been called adequately and nothing has been called afterwards, otherwise
 /// [`super::MaybeError::NotEncoded`] will be returned.
 ///
+/// If the bound holds without an assumption, `assump` is set to `0`.
+///
 /// # Safety
 ///
 /// `tot` must be a return value of [`tot_new`] that [`tot_drop`] has not yet been called on.
@@ -170,8 +174,8 @@ pub unsafe extern "C" fn tot_enforce_lb(
 ) -> super::MaybeError {
     match (*tot).enforce_lb(lb) {
         Ok(assumps) => {
-            debug_assert_eq!(assumps.len(), 1);
-            *assump = assumps[0].to_ipasir();
+            debug_assert!(assumps.len() <= 1);
+            *assump = assumps.first().map_or(0, |lit| lit.to_ipasir());
             super::MaybeError::Ok
         }
         Err(err) => err.into(),
diff --git a/codegen/templates/capi-card.rs.j2 b/codegen/templates/capi-card.rs.j2
index 1355838..5ff57c0 100644
--- a/codegen/templates/capi-card.rs.j2
+++ b/codegen/templates/capi-card.rs.j2
@@ -79,6 +79,8 @@ pub unsafe extern "C" fn {{ enc.id }}_encode_ub(
 /// Returns an assumption/unit for enforcing an upper bound (`sum of lits <= ub`). Make sure that
 /// [`{{ enc.id }}_encode_ub`] has been called adequately and nothing has been called afterwards, otherwise
 /// [`super::MaybeError::NotEncoded`] will be returned.
+///
+/// If the bound holds without an assumption, `assump` is set to `0`.
 {% include 'capi-safety.j2' %}
 #[no_mangle]
 pub unsafe extern "C" fn {{ enc.id }}_enforce_ub(
@@ -88,8 +90,8 @@ pub unsafe extern "C" fn {{ enc.id }}_enforce_ub(
 ) -> super::MaybeError {
     match (*{{ enc.id }}).enforce_ub(ub) {
         Ok(assumps) => {
-            debug_assert_eq!(assumps.len(), 1);
-            *assump = assumps[0].to_ipasir();
+            debug_assert!(assumps.len() <= 1);
+            *assump = assumps.first().map_or(0, |lit| lit.to_ipasir());
             super::MaybeError::Ok
         }
         Err(err) => err.into(),
@@ -130,6 +132,8 @@ pub unsafe extern "C" fn {{ enc.id }}_encode_lb(
 /// Returns an assumption/unit for enforcing a lower bound (`sum of lits >= lb`). Make sure that
 /// [`{{ enc.id }}_encode_lb`] has been called adequately and nothing has been called afterwards, otherwise
 /// [`super::MaybeError::NotEncoded`] will be returned.
+///
+/// If the bound holds without an assumption, `assump` is set to `0`.
 {% include 'capi-safety.j2' %}
 #[no_mangle]
 pub unsafe extern "C" fn {{ enc.id }}_enforce_lb(
@@ -139,8 +143,8 @@ pub unsafe extern "C" fn {{ enc.id }}_enforce_lb(
 ) -> super::MaybeError {
     match (*{{ enc.id }}).enforce_lb(lb) {
         Ok(assumps) => {
-            debug_assert_eq!(assumps.len(), 1);
-            *assump = assumps[0].to_ipasir();
+            debug_assert!(assumps.len() <= 1);
+            *assump = assumps.first().map_or(0, |lit| lit.to_ipasir());
             super::MaybeError::Ok
         }
         Err(err) => err.into(),
-- 
2.43.0


From 291c5f5d234b2fff2735d11dec6734c0f14d52ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:47 +0000
Subject: [PATCH 081/101] fix: a watchdog built at the default precision fails
 after explicitly setting full precision

A precision divisor of zero stands for full precision as well, so a structure
with divisor zero is at least as precise as divisor one.
---
 src/encodings/pb/dpw/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 891057c..0521847 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -354,7 +354,7 @@ impl super::BoundUpper for DynamicPolyWatchdog {
             if self.has_unencoded_weights() {
                 return Err(EnforceError::NotEncoded);
             }
-            debug_assert!(structure.prec_div >= self.prec_div);
+            debug_assert!(structure.prec_div.max(1) >= self.prec_div.max(1));
             enforce_ub(structure, ub / self.prec_ratio(structure), &self.db)
         } else {
             if self.in_lits.len() > 1 {
-- 
2.43.0


From 9a2f0dce10a04875ffaad27acac089bc88d1c353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:24 +0000
Subject: [PATCH 082/101] fix: the OPB conversion tools ignore the index of the
 first variable

The option was never used and the first variable taken to be x0, so by default
all variables were shifted by one.
---
 tools/src/bin/opb2cnf.rs  | 4 ++--
 tools/src/bin/opb2mcnf.rs | 4 ++--
 tools/src/bin/opb2wcnf.rs | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/tools/src/bin/opb2cnf.rs b/tools/src/bin/opb2cnf.rs
index 1a33b35..2d7442b 100644
--- a/tools/src/bin/opb2cnf.rs
+++ b/tools/src/bin/opb2cnf.rs
@@ -15,13 +15,13 @@ struct Args {
     out_path: Option<std::path::PathBuf>,
     /// The index in the OPB file to treat as the lowest variable
     #[arg(long, default_value_t = 1)]
-    first_var_idx: usize,
+    first_var_idx: u32,
 }
 
 fn main() -> anyhow::Result<()> {
     let args = Args::parse();
     let opb_opts = rustsat::instances::fio::opb::Options {
-        first_var_idx: 0,
+        first_var_idx: args.first_var_idx,
         ..Default::default()
     };
 
diff --git a/tools/src/bin/opb2mcnf.rs b/tools/src/bin/opb2mcnf.rs
index 4753f84..e35d176 100644
--- a/tools/src/bin/opb2mcnf.rs
+++ b/tools/src/bin/opb2mcnf.rs
@@ -15,13 +15,13 @@ struct Args {
     out_path: Option<std::path::PathBuf>,
     /// The index in the OPB file to treat as the lowest variable
     #[arg(long, default_value_t = 1)]
-    first_var_idx: usize,
+    first_var_idx: u32,
 }
 
 fn main() -> anyhow::Result<()> {
     let args = Args::parse();
     let opb_opts = rustsat::instances::fio::opb::Options {
-        first_var_idx: 0,
+        first_var_idx: args.first_var_idx,
         ..Default::default()
     };
 
diff --git a/tools/src/bin/opb2wcnf.rs b/tools/src/bin/opb2wcnf.rs
index fa10c64..a6c5a0f 100644
--- a/tools/src/bin/opb2wcnf.rs
+++ b/tools/src/bin/opb2wcnf.rs
@@ -14,13 +14,13 @@ struct Args {
     out_path: Option<std::path::PathBuf>,
     /// The index in the OPB file to treat as the lowest variable
     #[arg(long, default_value_t = 1)]
-    first_var_idx: usize,
+    first_var_idx: u32,
 }
 
 fn main() -> anyhow::Result<()> {
     let args = <Args as clap::Parser>::parse();
     let opb_opts = rustsat::instances::fio::opb::Options {
-        first_var_idx: 0,
+        first_var_idx: args.first_var_idx,
         ..Default::default()
     };
 
-- 
2.43.0


From 61704c2153ebad333270de3893ce16177761a2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:24 +0000
Subject: [PATCH 083/101] fix: opb2cnf writes invalid DIMACS to the standard
 output

The statistics are printed as comments, as in the other conversion tools.
---
 tools/src/bin/opb2cnf.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/src/bin/opb2cnf.rs b/tools/src/bin/opb2cnf.rs
index 2d7442b..f014529 100644
--- a/tools/src/bin/opb2cnf.rs
+++ b/tools/src/bin/opb2cnf.rs
@@ -32,9 +32,9 @@ fn main() -> anyhow::Result<()> {
             .context("error parsing input")?
     };
 
-    println!("{} clauses", inst.n_clauses());
-    println!("{} cards", inst.n_cards());
-    println!("{} pbs", inst.n_pbs());
+    println!("c {} clauses", inst.n_clauses());
+    println!("c {} cards", inst.n_cards());
+    println!("c {} pbs", inst.n_pbs());
 
     inst.convert_to_cnf();
 
-- 
2.43.0


From 0edf7b2ddad1a3e370ae3eb49e018acfe5b8976b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:47 +0000
Subject: [PATCH 084/101] fix: the enumerator finds a solution if none is asked
 for

---
 tools/src/bin/enumerator.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/tools/src/bin/enumerator.rs b/tools/src/bin/enumerator.rs
index 4324575..562c8a6 100644
--- a/tools/src/bin/enumerator.rs
+++ b/tools/src/bin/enumerator.rs
@@ -203,7 +203,7 @@ fn main() -> anyhow::Result<()> {
 
     let enumerator = Enumerator { solver, max_var };
 
-    for (cnt, sol) in enumerator.enumerate() {
+    for sol in enumerator.take(args.enumerate_until.unwrap_or(usize::MAX)) {
         if !args.no_objective_values && !objs.is_empty() {
             print!("o");
             for obj in &objs {
@@ -212,9 +212,6 @@ fn main() -> anyhow::Result<()> {
             println!();
         }
         println!("v {sol}");
-        if args.enumerate_until.is_some_and(|max| cnt + 1 >= max) {
-            break;
-        }
     }
     Ok(())
 }
-- 
2.43.0


From bdb5dee1172272994c4045afd84730f836161353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:47 +0000
Subject: [PATCH 085/101] fix: gbmosplit mixes messages into the instance it
 writes

Warnings and errors belong on stderr, and so does other information if the
instance is written to stdout.
---
 tools/src/bin/gbmosplit.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tools/src/bin/gbmosplit.rs b/tools/src/bin/gbmosplit.rs
index 717061e..75081ca 100644
--- a/tools/src/bin/gbmosplit.rs
+++ b/tools/src/bin/gbmosplit.rs
@@ -87,7 +87,7 @@ impl Cli {
         write!(&mut buffer, ": ").unwrap();
         buffer.reset().unwrap();
         writeln!(&mut buffer, "{msg}").unwrap();
-        self.stdout.print(&buffer).unwrap();
+        self.stderr.print(&buffer).unwrap();
     }
 
     fn error(&self, err: &anyhow::Error) {
@@ -101,11 +101,17 @@ impl Cli {
         write!(&mut buffer, ": ").unwrap();
         buffer.reset().unwrap();
         writeln!(&mut buffer, "{err}").unwrap();
-        self.stdout.print(&buffer).unwrap();
+        self.stderr.print(&buffer).unwrap();
     }
 
     fn info(&self, msg: &str) {
-        let mut buffer = self.stdout.buffer();
+        // don't mix messages into an instance that is written to `stdout`
+        let writer = if self.out_path.is_some() {
+            &self.stdout
+        } else {
+            &self.stderr
+        };
+        let mut buffer = writer.buffer();
         buffer
             .set_color(ColorSpec::new().set_bold(true).set_fg(Some(Color::Blue)))
             .unwrap();
@@ -115,7 +121,7 @@ impl Cli {
         write!(&mut buffer, ": ").unwrap();
         buffer.reset().unwrap();
         writeln!(&mut buffer, "{msg}").unwrap();
-        self.stdout.print(&buffer).unwrap();
+        writer.print(&buffer).unwrap();
     }
 
     fn print_split_stats(&self, split_stats: SplitStats) {
-- 
2.43.0


From f6dd5dee745e283b6865004dbfb63d9aa4327ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:47 +0000
Subject: [PATCH 086/101] fix: gbmosplit drops the relaxed soft clauses when
 writing OPB

---
 tools/src/bin/gbmosplit.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/src/bin/gbmosplit.rs b/tools/src/bin/gbmosplit.rs
index 75081ca..130679c 100644
--- a/tools/src/bin/gbmosplit.rs
+++ b/tools/src/bin/gbmosplit.rs
@@ -663,7 +663,8 @@ fn main() -> anyhow::Result<()> {
             WriteFormat::Opb => {
                 let (mut constrs, mut objs) = mo_inst.decompose();
                 for obj in &mut objs {
-                    obj.convert_to_soft_lits(constrs.var_manager_mut());
+                    let hardened = obj.convert_to_soft_lits(constrs.var_manager_mut());
+                    constrs.extend(hardened.into());
                 }
                 let mo_inst = MultiOptInstance::compose(constrs, objs);
                 if let Some(path) = &cli.out_path {
-- 
2.43.0


From 20d1fbfe8021e5e2772a315ef9ed95e82f2e93c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:47 +0000
Subject: [PATCH 087/101] fix: gbmosplit adds the offset to the highest ranking
 objective

---
 tools/src/bin/gbmosplit.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/src/bin/gbmosplit.rs b/tools/src/bin/gbmosplit.rs
index 130679c..c7365c9 100644
--- a/tools/src/bin/gbmosplit.rs
+++ b/tools/src/bin/gbmosplit.rs
@@ -359,8 +359,8 @@ fn split<VM: rustsat::instances::ManageVars>(
         SplitAlg::Gbmo => split_gbmo(sorted_clauses, cli),
     };
 
-    // add offset of original objective to last objective
-    objs.last_mut().unwrap().set_offset(offset);
+    // add offset of original objective to lowest ranking objective
+    objs.first_mut().unwrap().set_offset(offset);
 
     (MultiOptInstance::compose(constr, objs), split_stats)
 }
-- 
2.43.0


From 8121aa506c012c3bc37da4fbb293377842a05463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:39 +0000
Subject: [PATCH 088/101] fix: mo2ilp writes a wrong number of non-zero
 coefficients

The constant column was not counted, and neither were literals that cancel.
---
 tools/src/bin/mo2ilp.rs | 61 ++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 28 deletions(-)

diff --git a/tools/src/bin/mo2ilp.rs b/tools/src/bin/mo2ilp.rs
index bca7937..0dfdecc 100644
--- a/tools/src/bin/mo2ilp.rs
+++ b/tools/src/bin/mo2ilp.rs
@@ -198,12 +198,19 @@ fn write_instance<W: std::io::Write>(
     // add aux variable unit for objective offset
     pbs.push(PbConstraint::new_lb([(vm.new_lit(), 1)], 1));
 
+    let costs: Vec<_> = objs
+        .into_iter()
+        .map(|o| objective_coefs(o, vm.n_used()))
+        .collect();
+    let constrs: Vec<_> = pbs
+        .into_iter()
+        .map(|c| constraint_coefs(c, vm.n_used()))
+        .collect();
+
     // compute non-zeroes
-    let non_zero_constrs: usize = pbs.iter().map(PbConstraint::len).sum();
-    let non_zero_objs: usize = objs
-        .iter()
-        .map(rustsat::instances::Objective::n_softs)
-        .sum();
+    let non_zero = |coefs: &[isize]| coefs.iter().filter(|&&c| c != 0).count();
+    let non_zero_constrs: usize = constrs.iter().map(|(c, _, _)| non_zero(c)).sum();
+    let non_zero_objs: usize = costs.iter().map(|c| non_zero(c)).sum();
 
     match format {
         OutputFormat::Bauss => {
@@ -212,34 +219,41 @@ fn write_instance<W: std::io::Write>(
                 writer,
                 "{} {} {} {non_zero_constrs} {non_zero_objs}",
                 vm.n_used(),
-                pbs.len(),
-                objs.len(),
+                constrs.len(),
+                costs.len(),
             )?;
         }
         OutputFormat::Fgt => {
             // #vars #constrs #objs
-            writeln!(writer, "{} {} {}", vm.n_used(), pbs.len(), objs.len(),)?;
+            writeln!(
+                writer,
+                "{} {} {}",
+                vm.n_used(),
+                constrs.len(),
+                costs.len(),
+            )?;
         }
     }
     writeln!(writer)?;
 
     if matches!(format, OutputFormat::Fgt) {
         // objective types
-        writeln!(writer, "{}", (0..objs.len()).map(|_| "minsum").format(" "))?;
+        writeln!(writer, "{}", (0..costs.len()).map(|_| "minsum").format(" "))?;
         writeln!(writer)?;
     }
 
     // cost matrix
-    for obj in objs {
-        write_objective(obj, vm.n_used(), writer)?;
+    for coefs in costs {
+        writeln!(writer, "{}", coefs.into_iter().format(" "))?;
     }
     writeln!(writer)?;
 
     // constraint matrix
-    let bounds = pbs
-        .into_iter()
-        .map(|c| write_constraint(c, vm.n_used(), writer))
-        .collect::<std::io::Result<Vec<_>>>()?;
+    let mut bounds = Vec::with_capacity(constrs.len());
+    for (coefs, op, bound) in constrs {
+        writeln!(writer, "{}", coefs.into_iter().format(" "))?;
+        bounds.push((op, bound));
+    }
     writeln!(writer)?;
 
     // rhs
@@ -256,11 +270,7 @@ fn write_instance<W: std::io::Write>(
     Ok(())
 }
 
-fn write_objective<W: std::io::Write>(
-    obj: rustsat::instances::Objective,
-    n_vars: u32,
-    writer: &mut W,
-) -> std::io::Result<()> {
+fn objective_coefs(obj: rustsat::instances::Objective, n_vars: u32) -> Vec<isize> {
     let mut coefs = vec![0; n_vars as usize];
     for (lit, coef) in obj.iter_soft_lits().unwrap() {
         let mut coef =
@@ -272,14 +282,10 @@ fn write_objective<W: std::io::Write>(
         coefs[lit.var().idx()] += coef;
     }
     *coefs.last_mut().unwrap() += obj.offset();
-    writeln!(writer, "{}", coefs.into_iter().format(" "))
+    coefs
 }
 
-fn write_constraint<W: std::io::Write>(
-    constr: PbConstraint,
-    n_vars: u32,
-    writer: &mut W,
-) -> std::io::Result<(Operator, isize)> {
+fn constraint_coefs(constr: PbConstraint, n_vars: u32) -> (Vec<isize>, Operator, isize) {
     let mut coefs = vec![0; n_vars as usize];
     let (lits, op, mut bound) = match constr {
         PbConstraint::Ub(constr) => {
@@ -304,8 +310,7 @@ fn write_constraint<W: std::io::Write>(
         }
         coefs[lit.var().idx()] += coef;
     }
-    writeln!(writer, "{}", coefs.into_iter().format(" "))?;
-    Ok((op, bound))
+    (coefs, op, bound)
 }
 
 #[derive(Clone, Copy)]
-- 
2.43.0


From 68cd75920dbf113516196c9f46bf4f1108f7fabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:41 +0000
Subject: [PATCH 089/101] fix: the vOptLib knapsack reader skips the number of
 constraints and the capacity

The line with the number of objectives was parsed as the number of
constraints, which shifted all values by one, and the capacity was always 0.
---
 tools/src/encodings/knapsack.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/tools/src/encodings/knapsack.rs b/tools/src/encodings/knapsack.rs
index 62bfc4f..4b38bcf 100644
--- a/tools/src/encodings/knapsack.rs
+++ b/tools/src/encodings/knapsack.rs
@@ -268,12 +268,18 @@ mod parsing {
             )))
             .parse(&line)
             .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
-        single_value(dec_uint::<_, u32, ContextError>, "#")
+        let line = next_non_comment_line!(reader, line_num)
+            .context("file ended before number of constraints line")?;
+        let n_constrs = single_value(dec_uint::<_, u32, ContextError>, "#")
             .context(StrContext::Expected(StrContextValue::Description(
                 "number of constraints",
             )))
             .parse(&line)
             .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
+        anyhow::ensure!(
+            n_constrs == 1,
+            "only knapsack problems with a single constraint are supported"
+        );
         let mut inst = super::Knapsack {
             items: vec![
                 super::ItemData {
@@ -307,6 +313,18 @@ mod parsing {
                 .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
             inst.items[item_idx].weight = weight;
         }
+        let line =
+            next_non_comment_line!(reader, line_num).context("file ended before capacity line")?;
+        inst.capacity = single_value(dec_uint::<_, usize, ContextError>, "#")
+            .context(StrContext::Expected(StrContextValue::Description(
+                "capacity",
+            )))
+            .parse(&line)
+            .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
+        anyhow::ensure!(
+            next_non_comment_line!(reader, line_num).is_none(),
+            "unexpected content after the capacity"
+        );
         Ok(inst)
     }
 
-- 
2.43.0


From 81118ec33b445800e08c62d2da6ab3dac7077d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:41 +0000
Subject: [PATCH 090/101] fix: the MOO-Library knapsack reader accepts missing
 weights

---
 tools/src/encodings/knapsack.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/src/encodings/knapsack.rs b/tools/src/encodings/knapsack.rs
index 4b38bcf..87fcd59 100644
--- a/tools/src/encodings/knapsack.rs
+++ b/tools/src/encodings/knapsack.rs
@@ -241,6 +241,10 @@ mod parsing {
                 line_num,
             )
         })?;
+        anyhow::ensure!(
+            item_idx == n_items,
+            "number of weights does not match number of items"
+        );
         for item in &inst.items {
             anyhow::ensure!(
                 item.values.len() == n_obj,
-- 
2.43.0


From 4c5fe266d53aeff0e8093fa79a973027e4fcd9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:41 +0000
Subject: [PATCH 091/101] fix: the assignment problem reader accepts incomplete
 files

Missing rows, columns or brackets were accepted with a cost of zero, while
spaces around separators or superfluous content led to panics or endless loops.
---
 tools/src/encodings/assignment.rs | 69 ++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 29 deletions(-)

diff --git a/tools/src/encodings/assignment.rs b/tools/src/encodings/assignment.rs
index 79aad3a..cb91537 100644
--- a/tools/src/encodings/assignment.rs
+++ b/tools/src/encodings/assignment.rs
@@ -70,6 +70,17 @@ mod parsing {
         };
     }
 
+    /// What is expected next in the nested lists of costs
+    #[derive(Clone, Copy, PartialEq, Eq)]
+    enum Next {
+        Start,
+        Objective,
+        Task,
+        TaskSeparator,
+        ObjectiveSeparator,
+        End,
+    }
+
     pub fn parse_moolib(mut reader: impl std::io::BufRead) -> anyhow::Result<super::Assignment> {
         let mut line_num = 0;
         let line = next_non_comment_line!(reader, line_num)
@@ -90,42 +101,19 @@ mod parsing {
             .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
         let mut inst = super::Assignment::empty(n_tasks, n_objs);
         let mut buf = String::new();
-        let mut depth = 0;
+        let mut next = Next::Start;
         let mut obj_idx = 0;
         let mut task_idx = 0;
         while reader.read_line(&mut buf)? > 0 {
             line_num += 1;
             let mut remain = buf.trim_start();
             loop {
-                if remain.starts_with('[') && depth < 2 {
-                    depth += 1;
-                    remain = &remain[1..];
-                }
-                if remain.starts_with(']') {
-                    depth -= 1;
-                    if depth == 1 {
-                        task_idx = 0;
-                    }
-                    remain = &remain[1..];
-                }
-                if remain.starts_with(',') {
-                    match depth {
-                        1 => {
-                            obj_idx += 1;
-                            anyhow::ensure!(obj_idx < n_objs, "too many objectives");
-                        }
-                        2 => {
-                            task_idx += 1;
-                            anyhow::ensure!(obj_idx < n_objs, "too many tasks");
-                        }
-                        _ => unreachable!(),
-                    };
-                    remain = &remain[1..];
-                }
-                if remain.starts_with('#') || remain.trim().is_empty() {
+                remain = remain.trim_start();
+                if remain.starts_with('#') || remain.is_empty() {
                     break;
                 }
-                if depth == 2 {
+                if next == Next::Task {
+                    anyhow::ensure!(task_idx < n_tasks, "too many tasks");
                     let mut agent_idx = 0;
                     remain = (
                         ListCallbackParser::new(
@@ -158,12 +146,35 @@ mod parsing {
                             )
                         })?
                         .1;
+                    anyhow::ensure!(agent_idx == n_tasks, "too few agents");
+                    task_idx += 1;
+                    next = Next::TaskSeparator;
+                    continue;
                 }
+                next = match (next, remain.as_bytes()[0]) {
+                    (Next::Start, b'[') => Next::Objective,
+                    (Next::Objective, b'[') => {
+                        anyhow::ensure!(obj_idx < n_objs, "too many objectives");
+                        task_idx = 0;
+                        Next::Task
+                    }
+                    (Next::TaskSeparator, b',') => Next::Task,
+                    (Next::TaskSeparator, b']') => {
+                        anyhow::ensure!(task_idx == n_tasks, "too few tasks");
+                        obj_idx += 1;
+                        Next::ObjectiveSeparator
+                    }
+                    (Next::ObjectiveSeparator, b',') => Next::Objective,
+                    (Next::ObjectiveSeparator, b']') => Next::End,
+                    _ => anyhow::bail!("unexpected content in line {line_num}"),
+                };
+                remain = &remain[1..];
             }
             buf.clear();
         }
+        anyhow::ensure!(next == Next::End, "file ended before list of costs ended");
         anyhow::ensure!(
-            obj_idx + 1 == n_objs,
+            obj_idx == n_objs,
             "number of objectives does not match up"
         );
         Ok(inst)
-- 
2.43.0


From e162b10ccbe17b291144638c56b2faf8e33d4279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:41 +0000
Subject: [PATCH 092/101] fix: the facility location reader does not check the
 number of values

Surplus values shifted all that follow, missing ones led to panics.
---
 tools/src/encodings/facilitylocation.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/tools/src/encodings/facilitylocation.rs b/tools/src/encodings/facilitylocation.rs
index ae42f07..6ce18d6 100644
--- a/tools/src/encodings/facilitylocation.rs
+++ b/tools/src/encodings/facilitylocation.rs
@@ -98,6 +98,10 @@ mod parsing {
             .parse(&line)
             .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
         let n_services = usize::try_from(n_services).context("u32 does not fit in usize")?;
+        anyhow::ensure!(
+            n_users > 0 && n_services > 0,
+            "expected at least one user and one service"
+        );
 
         let mut prob = super::FacilityLocation {
             n_objs: 2,
@@ -105,9 +109,11 @@ mod parsing {
             n_facilities: n_services,
             ..super::FacilityLocation::default()
         };
+        let mut row = 0;
         for _ in 0..2 {
             next_line!(reader, line_num).context("file ended early")?;
             for _ in 0..n_users {
+                row += 1;
                 let line =
                     next_line!(reader, line_num).context("file ended in the middle of c matrix")?;
                 SeparatedCallbackParser::new(
@@ -122,10 +128,14 @@ mod parsing {
                 )))
                 .parse(line.trim_end())
                 .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
+                anyhow::ensure!(
+                    prob.supply_cost.len() == row * n_services,
+                    "length of c matrix line does not match number of services"
+                );
             }
         }
 
-        for _ in 0..2 {
+        for obj in 1..=2 {
             next_line!(reader, line_num).context("file ended early")?;
             let line = next_line!(reader, line_num).context("file ended early")?;
             SeparatedCallbackParser::new(
@@ -140,6 +150,10 @@ mod parsing {
             )))
             .parse(line.trim_end())
             .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
+            anyhow::ensure!(
+                prob.opening_cost.len() == obj * n_services,
+                "length of r vector does not match number of services"
+            );
         }
 
         Ok(prob)
-- 
2.43.0


From ee0234f856938405ae0af23ecd07d940394ed03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:41 +0000
Subject: [PATCH 093/101] fix: the clustering encoding silently ignores lines
 that it cannot parse

This included lines with trailing white space.
---
 tools/src/encodings/cnf/clustering.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/tools/src/encodings/cnf/clustering.rs b/tools/src/encodings/cnf/clustering.rs
index 651c636..483aec0 100644
--- a/tools/src/encodings/cnf/clustering.rs
+++ b/tools/src/encodings/cnf/clustering.rs
@@ -139,12 +139,15 @@ impl Encoding {
         let mut next_idx: u32 = 0;
         let process_line =
             |(line_num, line): (usize, Result<String, std::io::Error>)| -> Option<anyhow::Result<(String, String, f64)>> {
-                let full_line = line.ok()?;
-                let line = full_line.trim_start();
-                if line.starts_with('%') {
+                let full_line = match line {
+                    Ok(line) => line,
+                    Err(err) => return Some(Err(err.into())),
+                };
+                let line = full_line.trim();
+                if line.is_empty() || line.starts_with('%') {
                     return None;
                 }
-                let tup = winnow::Parser::<_, _, ContextError>::parse(
+                let tup = match winnow::Parser::<_, _, ContextError>::parse(
                     &mut winnow::seq! {
                         ident(),
                         _: multispace1::<_, ContextError>,
@@ -155,7 +158,10 @@ impl Encoding {
                     line,
                 )
                 .map_err(|e| ParsingError::from_parse(&e, &full_line, 0, line_num+1))
-                .ok()?;
+                {
+                    Ok(tup) => tup,
+                    Err(err) => return Some(Err(err.into())),
+                };
                 if !ident_map.contains_key(&tup.0) {
                     ident_map.insert(tup.0.clone(), next_idx);
                     next_idx += 1;
-- 
2.43.0


From 4c66e6d449e52eb9fbdfc5d097556f691d67a945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:41 +0000
Subject: [PATCH 094/101] fix: the clustering encoding of less than two nodes
 panics

---
 tools/src/encodings/cnf/clustering.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/tools/src/encodings/cnf/clustering.rs b/tools/src/encodings/cnf/clustering.rs
index 483aec0..75d626b 100644
--- a/tools/src/encodings/cnf/clustering.rs
+++ b/tools/src/encodings/cnf/clustering.rs
@@ -180,7 +180,9 @@ impl Encoding {
         let n = ident_map.len() as u32;
 
         let mut similarities = Vec::new();
-        similarities.resize(Self::sim_idx(n - 2, n - 1, n) + 1, Similarity::DontCare);
+        if n > 1 {
+            similarities.resize(Self::sim_idx(n - 2, n - 1, n) + 1, Similarity::DontCare);
+        }
         for (ident1, ident2, sim) in pairwise {
             let mut idx1 = *ident_map.get(&ident1).unwrap();
             let mut idx2 = *ident_map.get(&ident2).unwrap();
@@ -233,7 +235,7 @@ impl Iterator for Encoding {
         loop {
             match self.next_clause {
                 Clause::Eq(idx1, idx2, k, cidx) => {
-                    if idx1 >= self.n - 1 {
+                    if idx1 + 1 >= self.n {
                         self.next_clause = Clause::Same(0, 1, 0);
                         continue;
                     }
@@ -270,7 +272,7 @@ impl Iterator for Encoding {
                     }));
                 }
                 Clause::Same(idx1, idx2, cidx) => {
-                    if idx1 >= self.n - 1 {
+                    if idx1 + 1 >= self.n {
                         self.next_clause = Clause::MustLink(0, 1, 0);
                         continue;
                     }
@@ -307,7 +309,7 @@ impl Iterator for Encoding {
                     }));
                 }
                 Clause::MustLink(idx1, idx2, cidx) => {
-                    if idx1 >= self.n - 1 {
+                    if idx1 + 1 >= self.n {
                         self.next_clause = Clause::CannotLink(0, 1);
                         continue;
                     }
@@ -337,7 +339,7 @@ impl Iterator for Encoding {
                     }));
                 }
                 Clause::CannotLink(idx1, idx2) => {
-                    if idx1 >= self.n - 1 {
+                    if idx1 + 1 >= self.n {
                         self.next_clause = Clause::Similar(0, 1);
                         continue;
                     }
@@ -361,7 +363,7 @@ impl Iterator for Encoding {
                     ));
                 }
                 Clause::Similar(idx1, idx2) => {
-                    if idx1 >= self.n - 1 {
+                    if idx1 + 1 >= self.n {
                         self.next_clause = Clause::DisSimilar(0, 1);
                         continue;
                     }
@@ -384,7 +386,7 @@ impl Iterator for Encoding {
                     }
                 }
                 Clause::DisSimilar(idx1, idx2) => {
-                    if idx1 >= self.n - 1 {
+                    if idx1 + 1 >= self.n {
                         return None;
                     }
                     if idx2 >= self.n {
-- 
2.43.0


From 8261f915b09fca35839f887d86c1afd2437a738a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:41 +0000
Subject: [PATCH 095/101] fix: the offset of similarities of negative infinity
 overflows

---
 tools/src/bin/encodings.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/src/bin/encodings.rs b/tools/src/bin/encodings.rs
index 1877de1..5066c76 100644
--- a/tools/src/bin/encodings.rs
+++ b/tools/src/bin/encodings.rs
@@ -203,7 +203,8 @@ fn clustering(args: ClusteringArgs) -> anyhow::Result<impl Iterator<Item = fio::
             std::io::BufReader::new(std::fs::File::open(in_path)?),
             |sim| {
                 cnf::clustering::saturating_map(
-                    cnf::clustering::scaling_map(sim, args.multiplier) - args.offset,
+                    cnf::clustering::scaling_map(sim, args.multiplier)
+                        .saturating_sub(args.offset),
                     args.dont_care,
                     args.hard_threshold,
                 )
@@ -212,7 +213,7 @@ fn clustering(args: ClusteringArgs) -> anyhow::Result<impl Iterator<Item = fio::
     } else {
         cnf::clustering::Encoding::new(std::io::BufReader::new(std::io::stdin()), |sim| {
             cnf::clustering::saturating_map(
-                cnf::clustering::scaling_map(sim, args.multiplier) - args.offset,
+                cnf::clustering::scaling_map(sim, args.multiplier).saturating_sub(args.offset),
                 args.dont_care,
                 args.hard_threshold,
             )
-- 
2.43.0


From 96b3383340f68c7410325fc7e52206d9c63b62a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:41 +0000
Subject: [PATCH 096/101] fix: the clustering option for a single objective is
 ignored

---
 tools/src/bin/encodings.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tools/src/bin/encodings.rs b/tools/src/bin/encodings.rs
index 5066c76..847c08c 100644
--- a/tools/src/bin/encodings.rs
+++ b/tools/src/bin/encodings.rs
@@ -336,6 +336,12 @@ fn main() -> anyhow::Result<()> {
     let out_path = args.out_path;
     match args.fmt {
         Format::Cnf(args) => {
+            let single_objective = match &args.enc {
+                CnfEncoding::Clustering(enc_args) => {
+                    args.single_objective || enc_args.single_objective
+                }
+                CnfEncoding::Knapsack(_) => args.single_objective,
+            };
             let enc: BoxedDimacsIter = match args.enc {
                 CnfEncoding::Clustering(args) => Box::new(clustering(args)?),
                 CnfEncoding::Knapsack(args) => {
@@ -346,7 +352,7 @@ fn main() -> anyhow::Result<()> {
                     Box::new(cnf_knapsack(inst))
                 }
             };
-            write_cnf(enc, out_path, args.single_objective)
+            write_cnf(enc, out_path, single_objective)
         }
         Format::Pb(args) => {
             let opts = fio::opb::Options {
-- 
2.43.0


From 591f52085c2f1e3808df7c2df01a3629e0cf1501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:41 +0000
Subject: [PATCH 097/101] fix: random knapsacks never have the maximum weight
 and value

This panicked if the maximum was equal to the minimum.
---
 tools/src/bin/encodings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/src/bin/encodings.rs b/tools/src/bin/encodings.rs
index 847c08c..d54c68a 100644
--- a/tools/src/bin/encodings.rs
+++ b/tools/src/bin/encodings.rs
@@ -225,8 +225,8 @@ fn random_knapsack(args: &RandomKnapsackArgs) -> knapsack::Knapsack {
     knapsack::Knapsack::random(
         args.n_items,
         args.n_objectives,
-        args.min_value..args.max_value,
-        args.min_weight..args.max_weight,
+        args.min_value..args.max_value + 1,
+        args.min_weight..args.max_weight + 1,
         knapsack::Capacity::FractionTotalWeight(args.cap_fraction),
         args.seed,
     )
-- 
2.43.0


From dde671edb1c8d62255d93e3c2cd7f11834c32c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:19 +0000
Subject: [PATCH 098/101] fix: select VeriPB proofs with checked deletion if
 and only if requested

The description of CaDiCaL's option `veripb` has it the other way around,
but the implementation uses the even values for checked deletion.
---
 cadical/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index a42c0dd..3c1c57f 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -613,7 +613,7 @@ impl CaDiCaL<'_, '_> {
             } => {
                 self.set_option(
                     "veripb",
-                    1 + c_int::from(!checked_deletion) + 2 * c_int::from(drat),
+                    1 + c_int::from(checked_deletion) + 2 * c_int::from(drat),
                 )
                 .expect("we know this option exists");
                 false
-- 
2.43.0


From 69505c491cd037774a02ee0d15366e416692deae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:19 +0000
Subject: [PATCH 099/101] fix: write every proof in the format requested for it

The options selecting the format of an earlier proof stayed set.
---
 cadical/src/lib.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index 3c1c57f..945d268 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -592,6 +592,19 @@ impl CaDiCaL<'_, '_> {
         format: ProofFormat,
     ) -> Result<(), std::ffi::NulError> {
         let path = std::ffi::CString::new(path.as_ref().to_string_lossy().as_bytes())?;
+        // Forget the format of an earlier proof tracer, the options would otherwise accumulate
+        for (option, available) in [
+            ("lrat", cfg!(cadical_version = "v1.7")),
+            ("frat", cfg!(cadical_version = "v1.9")),
+            ("veripb", cfg!(cadical_version = "v1.9")),
+            ("idrup", cfg!(cadical_version = "v2.0")),
+            ("lidrup", cfg!(cadical_version = "v2.0")),
+        ] {
+            if available {
+                self.set_option(option, 0)
+                    .expect("we know this option exists");
+            }
+        }
         let binary = match format {
             ProofFormat::Drat { binary } => binary,
             #[cfg(cadical_version = "v1.7")]
-- 
2.43.0


From d59924939ecaae9ebfe36cf81af8ba84745ce55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:19 +0000
Subject: [PATCH 100/101] fix: return an error if the file for a proof cannot
 be written

CaDiCaL crashes when writing to a proof file that it failed to open.
---
 cadical/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index 945d268..afb6e3c 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -583,14 +583,21 @@ impl CaDiCaL<'_, '_> {
     ///
     /// # Errors
     ///
-    /// If the provided path contains a nul byte
+    /// - If the provided path contains a nul byte
+    /// - If the file at the provided path cannot be written
     // We know that the set options exist and that this should therefore never panic
     #[expect(clippy::missing_panics_doc)]
     pub fn trace_proof<P: AsRef<std::path::Path>>(
         &mut self,
         path: P,
         format: ProofFormat,
-    ) -> Result<(), std::ffi::NulError> {
+    ) -> anyhow::Result<()> {
+        // CaDiCaL attaches the tracer even if it cannot open the file and then crashes
+        std::fs::OpenOptions::new()
+            .write(true)
+            .create(true)
+            .truncate(false)
+            .open(path.as_ref())?;
         let path = std::ffi::CString::new(path.as_ref().to_string_lossy().as_bytes())?;
         // Forget the format of an earlier proof tracer, the options would otherwise accumulate
         for (option, available) in [
-- 
2.43.0


From 417f6d727595c34d6ef2f006189c28f606bcfd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:33 +0000
Subject: [PATCH 101/101] fix: reset a simulated incremental solver after the
 inner solver returned an error

If adding clauses to the inner solver or solving it failed, the simulator kept
assumptions as clauses or lost clauses and later returned wrong verdicts.
---
 src/solvers/simulators.rs | 50 +++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/src/solvers/simulators.rs b/src/solvers/simulators.rs
index 04e1aa4..e1ac357 100644
--- a/src/solvers/simulators.rs
+++ b/src/solvers/simulators.rs
@@ -79,6 +79,19 @@ impl<S, Init> Incremental<S, Init> {
     }
 }
 
+impl<S, Init> Incremental<S, Init>
+where
+    S: super::Solve,
+    Init: super::Initialize<S>,
+{
+    /// Replaces the solver by a new one with all clauses added so far
+    fn reset_solver(&mut self) -> anyhow::Result<()> {
+        self.state = InternalSolverState::Unknown;
+        self.solver = Init::init();
+        self.solver.add_cnf_ref(&self.clauses)
+    }
+}
+
 impl<S, Init> super::Solve for Incremental<S, Init>
 where
     S: super::Solve,
@@ -95,11 +108,12 @@ where
                 return Ok(super::SolverResult::Unsat)
             }
             InternalSolverState::Unknown | InternalSolverState::Unsat(_) => {
-                self.solver = Init::init();
-                self.solver.add_cnf_ref(&self.clauses)?;
+                self.reset_solver()?;
             }
             InternalSolverState::Init => (),
         }
+        // If solving fails, the solver needs to be reset before it is used again
+        self.state = InternalSolverState::Unknown;
         let start = crate::utils::Timer::now();
         let res = self.solver.solve()?;
         self.stats.cpu_solve_time += start.elapsed();
@@ -135,14 +149,13 @@ where
         self.stats.n_clauses += 1;
         self.update_avg_clause_len(clause.as_ref());
         self.update_max_var(clause.as_ref());
-        if matches!(self.state, InternalSolverState::Init) {
-            self.solver.add_clause_ref(clause)?;
-        } else {
-            self.state = InternalSolverState::Init;
-            self.solver = Init::init();
-            self.solver.add_cnf_ref(&self.clauses)?;
-            self.solver.add_clause_ref(&clause)?;
+        if !matches!(self.state, InternalSolverState::Init) {
+            self.reset_solver()?;
         }
+        // If adding the clause fails, the solver needs to be reset before it is used again
+        self.state = InternalSolverState::Unknown;
+        self.solver.add_clause_ref(clause)?;
+        self.state = InternalSolverState::Init;
         self.clauses
             .add_clause(clause.as_ref().iter().copied().collect());
         Ok(())
@@ -152,14 +165,13 @@ where
         self.stats.n_clauses += 1;
         self.update_avg_clause_len(&clause);
         self.update_max_var(&clause);
-        if matches!(self.state, InternalSolverState::Init) {
-            self.solver.add_clause_ref(&clause)?;
-        } else {
-            self.state = InternalSolverState::Init;
-            self.solver = Init::init();
-            self.solver.add_cnf_ref(&self.clauses)?;
-            self.solver.add_clause_ref(&clause)?;
+        if !matches!(self.state, InternalSolverState::Init) {
+            self.reset_solver()?;
         }
+        // If adding the clause fails, the solver needs to be reset before it is used again
+        self.state = InternalSolverState::Unknown;
+        self.solver.add_clause_ref(&clause)?;
+        self.state = InternalSolverState::Init;
         self.clauses.add_clause(clause);
         Ok(())
     }
@@ -183,9 +195,11 @@ where
     fn solve_assumps(&mut self, assumps: &[Lit]) -> anyhow::Result<super::SolverResult> {
         let start = crate::utils::Timer::now();
         if !matches!(self.state, InternalSolverState::Init) {
-            self.solver = Init::init();
-            self.solver.add_cnf_ref(&self.clauses)?;
+            self.reset_solver()?;
         }
+        // If solving fails, the solver contains assumptions and needs to be reset before it is used
+        // again
+        self.state = InternalSolverState::Unknown;
         for lit in assumps {
             self.solver.add_unit(*lit)?;
             // the solution includes the assumptions
-- 
2.43.0

