From c3c553258f7af53a37e6608410fc465dfd457ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 1/4] fix: report the vertex that was inserted when iterating
 over Rips cofacets

RipsCoboundary::column_with_filtration read distances to the vertex after the
inserted one, yielding wrong filtration values (or an out of bounds panic).
---
 phlite_rips/src/cohomology.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phlite_rips/src/cohomology.rs b/phlite_rips/src/cohomology.rs
index ded27da..570b92e 100644
--- a/phlite_rips/src/cohomology.rs
+++ b/phlite_rips/src/cohomology.rs
@@ -95,8 +95,9 @@ impl<CF: NonZeroCoefficient> Iterator for CoboundaryIterator<CF> {
             CF::one().additive_inverse()
         };
 
+        let inserted_vertex = self.next_vertex;
         self.next_vertex += 1;
-        Some((coeff, index, self.next_vertex))
+        Some((coeff, index, inserted_vertex))
     }
 }
 
-- 
2.43.0


From 82a1ecdea41c226dcf3c9eb0e857e200e6998fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 2/4] fix: build_rips_bases with max_dim=0 no longer indexes
 past the bases

---
 phlite_rips/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phlite_rips/src/lib.rs b/phlite_rips/src/lib.rs
index 8bc9032..a923acb 100644
--- a/phlite_rips/src/lib.rs
+++ b/phlite_rips/src/lib.rs
@@ -145,7 +145,7 @@ fn add_cofacets(
     let max_element = simplex_as_vec.last().unwrap();
     let prev_dimension = simplex_as_vec.len() - 1;
     let new_dimension = prev_dimension + 1;
-    if *max_element == n_vertices - 1 {
+    if new_dimension > max_dim || *max_element == n_vertices - 1 {
         // Cannot extend
         return;
     }
-- 
2.43.0


From 8dac26c83abb0f757f68e2af83878e2397b1f14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 3/4] fix: cached columns can be read while another column
 iterator is alive

The iterator held a borrow of the cache, so requesting any other uncached column
before dropping it (e.g. in a product of a cached matrix with itself) panicked.
---
 phlite/src/matrices/adaptors.rs | 45 ++++++++-------------------------
 1 file changed, 11 insertions(+), 34 deletions(-)

diff --git a/phlite/src/matrices/adaptors.rs b/phlite/src/matrices/adaptors.rs
index 49619bf..08bcfba 100644
--- a/phlite/src/matrices/adaptors.rs
+++ b/phlite/src/matrices/adaptors.rs
@@ -8,7 +8,7 @@
 // ====== WithTrivialFiltration ================
 
 use std::{
-    cell::{Ref, RefCell},
+    cell::RefCell,
     cmp::Reverse,
     collections::HashMap,
     hash::Hash,
@@ -198,29 +198,6 @@ pub struct WithCachedCols<M: MatrixOracle> {
     pub cache: RefCell<HashMap<M::ColT, Vec<(M::CoefficientField, M::RowT)>>>,
 }
 
-// Essentialy https://stackoverflow.com/questions/33541492/returning-iterator-of-a-vec-in-a-refcell
-struct CachedColIter<'a, T> {
-    inner: Option<Ref<'a, [T]>>,
-}
-
-impl<'a, T> Iterator for CachedColIter<'a, T> {
-    type Item = Ref<'a, T>;
-
-    fn next(&mut self) -> Option<Self::Item> {
-        match self.inner.take() {
-            Some(borrow) => match *borrow {
-                [] => None,
-                [_, ..] => {
-                    let (head, tail) = Ref::map_split(borrow, |slice| (&slice[0], &slice[1..]));
-                    self.inner.replace(tail);
-                    Some(head)
-                }
-            },
-            None => None,
-        }
-    }
-}
-
 impl<M> MatrixOracle for WithCachedCols<M>
 where
     M: MatrixOracle<ColT: Hash>,
@@ -242,16 +219,16 @@ where
                 .borrow_mut()
                 .insert(col.clone(), col_as_vec.clone());
         }
-        // Get a borrow to the column
-        let cache_borrow = self.cache.borrow();
-        let col_borrow = Ref::map(cache_borrow, |c| {
-            &c.get(&col).expect("Just populated key")[..]
-        });
-        // Return an iterator
-        CachedColIter {
-            inner: Some(col_borrow),
-        }
-        .map(|entry| entry.clone())
+        // Return an iterator over a copy of the cached column.
+        // We must not hold onto a borrow of the cache because another column may be requested,
+        // and hence inserted into the cache, while this iterator is still alive.
+        let cached_col = self
+            .cache
+            .borrow()
+            .get(&col)
+            .expect("Just populated key")
+            .clone();
+        cached_col.into_iter()
     }
 }
 
-- 
2.43.0


From 1f736bb8323f15e04231feb16f9d4696bdc6c158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 4/4] fix: read_off_diagram never reports a paired birth as
 essential

Whenever a pairing was read off before its birth column (e.g. a reversed coboundary
matrix with reverse_order=true, as documented) the birth was also left in essential.
---
 phlite/src/reduction/standard.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/phlite/src/reduction/standard.rs b/phlite/src/reduction/standard.rs
index 6e94415..c61b9ae 100644
--- a/phlite/src/reduction/standard.rs
+++ b/phlite/src/reduction/standard.rs
@@ -139,12 +139,18 @@ where
             }
             Some(piv) => {
                 pairings.insert((piv.row_index.clone(), basis_element));
-                essential.remove(&piv.row_index);
             }
         }
         if r_i.pop_pivot().is_none() {}
     }
 
+    // A cycle which is the birth of some pairing is not essential.
+    // We must wait until all pairings are known because, depending on the column order,
+    // the death may be read off before the birth.
+    for (birth, _death) in &pairings {
+        essential.remove(birth);
+    }
+
     Diagram {
         essential,
         pairings,
-- 
2.43.0

