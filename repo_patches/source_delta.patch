From dbaf5525227ccf476b4c2c3cc3014b6d32a0106b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:29 +0000
Subject: [PATCH 01/26] fix: include transitive control dependencies in
 information flow

---
 crates/flowistry/src/infoflow/analysis.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index c02db27..a327fad 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -5,6 +5,7 @@ use indexical::bitset::rustc::IndexMatrix;
 use log::{debug, trace};
 use rustc_data_structures::fx::FxHashMap as HashMap;
 use rustc_hir::{BodyId, def_id::DefId};
+use rustc_index::bit_set::DenseBitSet;
 use rustc_middle::{
   mir::{visit::Visitor, *},
   ty::TyCtxt,
@@ -179,9 +180,20 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
     }
 
     // Add location of every control dependency.
-    let controlled_by = self.control_dependencies.dependent_on(location.block);
+    // Note that control-dependence is transitive: a switch can itself be nested within another switch.
     let body = self.body;
-    for block in controlled_by.into_iter().flat_map(|set| set.iter()) {
+    let mut controlled_by = vec![location.block];
+    let mut visited = DenseBitSet::new_empty(body.basic_blocks.len());
+    while let Some(block) = controlled_by.pop() {
+      let parents = self.control_dependencies.dependent_on(block);
+      controlled_by.extend(
+        parents
+          .into_iter()
+          .flat_map(|set| set.iter())
+          .filter(|parent| visited.insert(*parent)),
+      );
+    }
+    for block in visited.iter() {
       for deps in &mut all_deps {
         deps.insert(body.terminator_loc(block));
       }
-- 
2.43.0


From 08e71c2783bac7ba42f93fe037981ef90eb2db61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:55 +0000
Subject: [PATCH 02/26] fix: don't clear an array's dependencies when mutating
 one of its elements

---
 crates/flowistry/src/infoflow/analysis.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index a327fad..2d7018e 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -212,8 +212,18 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
     let ignore_mut =
       is_extension_active(|mode| mode.mutability_mode == MutabilityMode::IgnoreMut);
     for (mt, deps) in mutations.iter().zip(&mut all_deps) {
-      // Clear sub-places of mutated place (if sound to do so)
+      // Clear sub-places of mutated place (if sound to do so).
+      // Note that a[i] and a[j] are normalized to the same place, so writing to a[i] doesn't clear a[j].
+      let is_array_elem = mt.mutated.projection.iter().any(|elem| {
+        matches!(
+          elem,
+          ProjectionElem::Index(..)
+            | ProjectionElem::ConstantIndex { .. }
+            | ProjectionElem::Subslice { .. }
+        )
+      });
       if matches!(mt.status, MutationStatus::Definitely)
+        && !is_array_elem
         && self.place_info.aliases(mt.mutated).len() == 1
       {
         for sub in self.place_info.children(mt.mutated).iter() {
-- 
2.43.0


From 79d9d1feaa6bc3ea185a5ebd3045ce3133f78262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:08 +0000
Subject: [PATCH 03/26] fix: treat array indices as inputs to a mutation

---
 crates/flowistry/src/infoflow/mutation.rs | 41 +++++++++++++++++++----
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/crates/flowistry/src/infoflow/mutation.rs b/crates/flowistry/src/infoflow/mutation.rs
index 05fcdd5..b7c5212 100644
--- a/crates/flowistry/src/infoflow/mutation.rs
+++ b/crates/flowistry/src/infoflow/mutation.rs
@@ -1,5 +1,7 @@
 //! Identifies the mutated places in a MIR instruction via modular approximation based on types.
 
+use std::iter;
+
 use log::debug;
 use rustc_abi::FieldIdx;
 use rustc_middle::{
@@ -49,6 +51,15 @@ where
   place_info: &'a PlaceInfo<'a, 'tcx>,
 }
 
+/// Returns every place used to index into an array or slice within `place`,
+/// e.g. `i` and `j` in `x[i].0[j]`.
+fn index_inputs(place: Place) -> impl Iterator<Item = Place> {
+  place.projection.iter().filter_map(|elem| match elem {
+    ProjectionElem::Index(local) => Some(Place::from(local)),
+    _ => None,
+  })
+}
+
 impl<'a, 'tcx, F> ModularMutationVisitor<'a, 'tcx, F>
 where
   F: FnMut(Location, Vec<Mutation<'tcx>>),
@@ -119,7 +130,11 @@ where
           let mutations = fields
             .map(|(mutated, input)| Mutation {
               mutated,
-              inputs: input.into_iter().collect::<Vec<_>>(),
+              inputs: input
+                .into_iter()
+                .chain(index_inputs(mutated))
+                .chain(input.into_iter().flat_map(index_inputs))
+                .collect::<Vec<_>>(),
               status: MutationStatus::Definitely,
             })
             .collect::<Vec<_>>();
@@ -148,7 +163,10 @@ where
               let input_field = place.project_deeper(&[field], tcx);
               Mutation {
                 mutated: mutated_field,
-                inputs: vec![input_field],
+                inputs: iter::once(input_field)
+                  .chain(index_inputs(*mutated))
+                  .chain(index_inputs(*place))
+                  .collect::<Vec<_>>(),
                 status: MutationStatus::Definitely,
               }
             })
@@ -157,7 +175,10 @@ where
           if mutations.is_empty() {
             mutations.push(Mutation {
               mutated: *mutated,
-              inputs: vec![*place],
+              inputs: iter::once(*place)
+                .chain(index_inputs(*mutated))
+                .chain(index_inputs(*place))
+                .collect::<Vec<_>>(),
               status: MutationStatus::Definitely,
             });
           }
@@ -171,9 +192,15 @@ where
 
     let mut collector = PlaceCollector::default();
     collector.visit_rvalue(rvalue, location);
+    let mut inputs = collector.0;
+    let indices = iter::once(mutated)
+      .chain(&inputs)
+      .flat_map(|place| index_inputs(*place))
+      .collect::<Vec<_>>();
+    inputs.extend(indices);
     (self.f)(location, vec![Mutation {
       mutated: *mutated,
-      inputs: collector.0,
+      inputs,
       status: MutationStatus::Definitely,
     }]);
   }
@@ -199,17 +226,19 @@ where
           .map(|(_, place)| place)
           .filter(|place| !async_hack.ignore_place(*place))
           .collect::<Vec<_>>();
-        let arg_inputs = arg_places.clone();
+        let mut arg_inputs = arg_places.clone();
+        arg_inputs.extend(arg_places.iter().copied().flat_map(index_inputs));
 
         let ret_is_unit = destination
           .ty(self.place_info.body.local_decls(), tcx)
           .ty
           .is_unit();
-        let inputs = if ret_is_unit {
+        let mut inputs = if ret_is_unit {
           Vec::new()
         } else {
           arg_inputs.clone()
         };
+        inputs.extend(index_inputs(*destination));
 
         let mut mutations = vec![Mutation {
           mutated: *destination,
-- 
2.43.0


From 5ab5f01f6a0ba11e33f3fc5872d55d5438f97d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:41 +0000
Subject: [PATCH 04/26] fix: treat a called function pointer as an input to the
 call

---
 crates/flowistry/src/infoflow/mutation.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry/src/infoflow/mutation.rs b/crates/flowistry/src/infoflow/mutation.rs
index b7c5212..13465c8 100644
--- a/crates/flowistry/src/infoflow/mutation.rs
+++ b/crates/flowistry/src/infoflow/mutation.rs
@@ -211,7 +211,7 @@ where
 
     match &terminator.kind {
       TerminatorKind::Call {
-        /*func,*/ // TODO: deal with func
+        func,
         args,
         destination,
         ..
@@ -228,6 +228,8 @@ where
           .collect::<Vec<_>>();
         let mut arg_inputs = arg_places.clone();
         arg_inputs.extend(arg_places.iter().copied().flat_map(index_inputs));
+        // If the callee is a function pointer, then it influences the effects of the call.
+        arg_inputs.extend(func.as_place());
 
         let ret_is_unit = destination
           .ty(self.place_info.body.local_decls(), tcx)
-- 
2.43.0


From a7ce2d2e97686f1fb6c1b4588495c9660643f0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:57 +0000
Subject: [PATCH 05/26] fix: construct a union as a whole rather than as its
 first field

---
 crates/flowistry/src/infoflow/mutation.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/crates/flowistry/src/infoflow/mutation.rs b/crates/flowistry/src/infoflow/mutation.rs
index 13465c8..f78b8bd 100644
--- a/crates/flowistry/src/infoflow/mutation.rs
+++ b/crates/flowistry/src/infoflow/mutation.rs
@@ -93,18 +93,19 @@ where
           AggregateKind::Adt(def_id, idx, substs, _, _) => {
             let adt_def = tcx.adt_def(*def_id);
             let variant = adt_def.variant(*idx);
-            let mutated = match adt_def.adt_kind() {
-              AdtKind::Enum => mutated.project_deeper(
-                &[ProjectionElem::Downcast(Some(variant.name), *idx)],
-                tcx,
-              ),
-              AdtKind::Struct | AdtKind::Union => *mutated,
-            };
             let fields = variant.fields.iter();
             let tys = fields
               .map(|field| field.ty(tcx, substs))
               .collect::<Vec<_>>();
-            Some((mutated, tys))
+            match adt_def.adt_kind() {
+              AdtKind::Enum => {
+                let downcast = ProjectionElem::Downcast(Some(variant.name), *idx);
+                Some((mutated.project_deeper(&[downcast], tcx), tys))
+              }
+              AdtKind::Struct => Some((*mutated, tys)),
+              // The fields of a union overlap, so it is mutated as a whole.
+              AdtKind::Union => None,
+            }
           }
           AggregateKind::Tuple => {
             let ty = rvalue.ty(body.local_decls(), tcx);
-- 
2.43.0


From 237f6e8aa51f7ffebb47387fba1bb747d7ee564d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:23 +0000
Subject: [PATCH 06/26] fix: propagate private fields when copying a struct

---
 crates/flowistry/src/infoflow/mutation.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/crates/flowistry/src/infoflow/mutation.rs b/crates/flowistry/src/infoflow/mutation.rs
index f78b8bd..cf60d1b 100644
--- a/crates/flowistry/src/infoflow/mutation.rs
+++ b/crates/flowistry/src/infoflow/mutation.rs
@@ -8,7 +8,7 @@ use rustc_middle::{
   mir::{visit::Visitor, *},
   ty::{AdtKind, TyKind},
 };
-use rustc_utils::{AdtDefExt, OperandExt, mir::place::PlaceCollector};
+use rustc_utils::{OperandExt, mir::place::PlaceCollector};
 
 use crate::mir::{
   placeinfo::PlaceInfo,
@@ -152,12 +152,15 @@ where
         if let TyKind::Adt(adt_def, substs) = place_ty.kind()
           && adt_def.is_struct()
         {
-          let fields = adt_def
-            .all_visible_fields(self.place_info.def_id, self.place_info.tcx)
+          let (visible, hidden): (Vec<_>, Vec<_>) = adt_def
+            .all_fields()
             .enumerate()
-            .map(|(i, field_def)| {
-              PlaceElem::Field(FieldIdx::from_usize(i), field_def.ty(tcx, substs))
+            .partition(|(_, field_def)| {
+              field_def.vis.is_accessible_from(self.place_info.def_id, tcx)
             });
+          let fields = visible.into_iter().map(|(i, field_def)| {
+            PlaceElem::Field(FieldIdx::from_usize(i), field_def.ty(tcx, substs))
+          });
           let mut mutations = fields
             .map(|field| {
               let mutated_field = mutated.project_deeper(&[field], tcx);
@@ -173,8 +176,9 @@ where
             })
             .collect::<Vec<_>>();
 
-          if mutations.is_empty() {
-            mutations.push(Mutation {
+          // Private fields can't be destructured, so they are represented by the whole struct.
+          if mutations.is_empty() || !hidden.is_empty() {
+            mutations.insert(0, Mutation {
               mutated: *mutated,
               inputs: iter::once(*place)
                 .chain(index_inputs(*mutated))
-- 
2.43.0


From 82cbb212917f88ca000d23071b8d82853aad8f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:48 +0000
Subject: [PATCH 07/26] fix: reading part of a pointee also reads the places
 containing it

---
 crates/flowistry/src/infoflow/analysis.rs | 1 +
 crates/flowistry/src/mir/placeinfo.rs     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index 2d7018e..3748a2f 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -117,6 +117,7 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
             .place_info
             .aliases(Place::from_ref(place_ref, self.tcx))
             .iter()
+            .flat_map(|alias| self.place_info.conflicts(*alias))
         });
     conflicts.chain(provenance).copied().collect()
   }
diff --git a/crates/flowistry/src/mir/placeinfo.rs b/crates/flowistry/src/mir/placeinfo.rs
index c3bb4a4..0dc1d09 100644
--- a/crates/flowistry/src/mir/placeinfo.rs
+++ b/crates/flowistry/src/mir/placeinfo.rs
@@ -117,6 +117,7 @@ impl<'a, 'tcx> PlaceInfo<'a, 'tcx> {
         .projection
         .iter()
         .enumerate()
+        .rev()
         .map(|(i, elem)| {
           let place = PlaceRef {
             local: place.local,
-- 
2.43.0


From 2df7df62ee8b31c02371d0972566b306e0d5af78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:48 +0000
Subject: [PATCH 08/26] fix: don't crash on a location that jumps to itself

---
 crates/flowistry/src/mir/engine.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/flowistry/src/mir/engine.rs b/crates/flowistry/src/mir/engine.rs
index 93f613a..0a84c11 100644
--- a/crates/flowistry/src/mir/engine.rs
+++ b/crates/flowistry/src/mir/engine.rs
@@ -111,6 +111,10 @@ pub fn iterate_to_fixpoint<'tcx, A: Analysis<'tcx>>(
 
     for next_loc in next_locs {
       let next_loc_index = location_domain.index(&LocationOrArg::Location(next_loc));
+      // An empty infinite loop is its own successor, and learns nothing new from itself.
+      if next_loc_index == loc_index {
+        continue;
+      }
       let (cur_state, next_state) = state.pick2_mut(loc_index, next_loc_index);
       let changed = next_state.join(cur_state);
       if changed {
-- 
2.43.0


From 996bde9844bb09867ecbffacab8985b1c488d29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:01 +0000
Subject: [PATCH 09/26] fix: treat everything reachable from an argument as an
 input to a call

---
 crates/flowistry/src/infoflow/mutation.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/flowistry/src/infoflow/mutation.rs b/crates/flowistry/src/infoflow/mutation.rs
index cf60d1b..1a0f718 100644
--- a/crates/flowistry/src/infoflow/mutation.rs
+++ b/crates/flowistry/src/infoflow/mutation.rs
@@ -233,6 +233,15 @@ where
           .collect::<Vec<_>>();
         let mut arg_inputs = arg_places.clone();
         arg_inputs.extend(arg_places.iter().copied().flat_map(index_inputs));
+        // The callee can read everything reachable from its arguments, not just the arguments.
+        arg_inputs.extend(arg_places.iter().flat_map(|place| {
+          self
+            .place_info
+            .reachable_values(*place, Mutability::Not)
+            .iter()
+            .filter(move |value| *value != place)
+            .copied()
+        }));
         // If the callee is a function pointer, then it influences the effects of the call.
         arg_inputs.extend(func.as_place());
 
-- 
2.43.0


From 008a42a21d94cea4ff7954a3847120c758aa2cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:36 +0000
Subject: [PATCH 10/26] fix: make an instruction's effect independent of the
 order of its mutations

---
 crates/flowistry/src/infoflow/analysis.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index 3748a2f..6c53f3e 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -212,7 +212,7 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
 
     let ignore_mut =
       is_extension_active(|mode| mode.mutability_mode == MutabilityMode::IgnoreMut);
-    for (mt, deps) in mutations.iter().zip(&mut all_deps) {
+    for mt in &mutations {
       // Clear sub-places of mutated place (if sound to do so).
       // Note that a[i] and a[j] are normalized to the same place, so writing to a[i] doesn't clear a[j].
       let is_array_elem = mt.mutated.projection.iter().any(|elem| {
@@ -231,10 +231,15 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
           state.clear_row(&self.place_info.normalize(*sub));
         }
       }
+    }
 
-      // Add deps of mutated to include provenance of mutated pointers
+    // Add deps of mutated to include provenance of mutated pointers.
+    // This must not observe the effects of this location's other mutations, which have no defined order.
+    for (mt, deps) in mutations.iter().zip(&mut all_deps) {
       add_deps(state, mt.mutated, deps);
+    }
 
+    for (mt, deps) in mutations.iter().zip(&all_deps) {
       let mutable_aliases = self
         .place_info
         .aliases(mt.mutated)
-- 
2.43.0


From 5c7ccfa8cc3bb57df3d928c95f79296743660297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:20 +0000
Subject: [PATCH 11/26] fix: translate callee fields with the caller's regions

---
 crates/flowistry/src/infoflow/recursive.rs | 25 ++++++++++++++--------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index d03faca..545618f 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -3,7 +3,7 @@
 use log::{debug, info};
 use rustc_middle::{
   mir::*,
-  ty::{ClosureKind, GenericArgKind, TyKind},
+  ty::{ClosureKind, GenericArgKind, TyKind, TypeVisitableExt},
 };
 use rustc_mir_dataflow::JoinSemiLattice;
 use rustc_utils::{PlaceExt, mir::borrowck_facts::get_body_with_borrowck_facts};
@@ -182,14 +182,21 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
           break;
         }
 
-        // ty = ty.projection_ty_core(tcx, elem, structurally_normalize, handle_field, handle_opaque_cast_and_subtype)
-        ty = ty.projection_ty(tcx, elem);
-        // ty = ty.projection_ty_core(
-        //   tcx,
-        //   &elem,
-        //   |_, field, _| ty.field_ty(tcx, field),
-        //   |_, ty| ty,
-        // );
+        // The child's fields mention the child's regions, so get their types from the parent.
+        ty = ty.projection_ty_core(
+          tcx,
+          &elem,
+          |ty| ty,
+          |ty, variant, field, child_field_ty| {
+            let field_ty = PlaceTy::field_ty(tcx, ty, variant, field);
+            if field_ty.has_aliases() {
+              child_field_ty
+            } else {
+              field_ty
+            }
+          },
+          |ty| ty,
+        );
         let elem = match elem {
           ProjectionElem::Field(field, _) => ProjectionElem::Field(field, ty.ty),
           elem => elem,
-- 
2.43.0


From 2e9b0c65ed128be2ac5c60240f26abc18c6ad15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:29 +0000
Subject: [PATCH 12/26] fix: don't miss a callee's inputs that were moved or
 overwritten

---
 crates/flowistry/src/infoflow/recursive.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index 545618f..2b0c9e8 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -219,10 +219,18 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
       }
 
       let child_deps = return_state.row_set(child);
-      let parent_deps = return_state
-        .rows()
-        .filter(|(_, deps)| child_deps.is_superset(deps))
-        .filter_map(|(row, _)| translate_child_to_parent(*row, false))
+      // An argument may have been moved or overwritten by the time the child returns, so its whole
+      // initial value is an input.
+      let parent_deps = parent_arg_places
+        .iter()
+        .filter(|(j, _)| child_deps.contains(Local::from_usize(j + 1)))
+        .flat_map(|(_, place)| {
+          self
+            .place_info
+            .reachable_values(*place, Mutability::Not)
+            .iter()
+            .copied()
+        })
         .collect::<Vec<_>>();
 
       debug!(
-- 
2.43.0


From a1713b336bdc7f1f348a506485bcbf42cc82e695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:48 +0000
Subject: [PATCH 13/26] fix: a callee's branches between its returns influence
 its effects

---
 crates/flowistry/src/infoflow/recursive.rs | 42 +++++++++++++++-------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index 2b0c9e8..606b625 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -1,12 +1,18 @@
 #![allow(unused)]
 
 use log::{debug, info};
+use rustc_data_structures::graph::depth_first_search;
 use rustc_middle::{
   mir::*,
   ty::{ClosureKind, GenericArgKind, TyKind, TypeVisitableExt},
 };
 use rustc_mir_dataflow::JoinSemiLattice;
-use rustc_utils::{PlaceExt, mir::borrowck_facts::get_body_with_borrowck_facts};
+use rustc_utils::{
+  BodyExt, OperandExt, PlaceExt,
+  mir::{
+    borrowck_facts::get_body_with_borrowck_facts, location_or_arg::index::LocationOrArgSet,
+  },
+};
 
 use super::{BODY_STACK, analysis::FlowAnalysis};
 use crate::{
@@ -125,20 +131,28 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
     });
     let body = &body_with_facts.body;
 
+    let return_locs = body.all_returns().collect::<Vec<_>>();
+
     let mut return_state = FlowDomain::new(flow.analysis.location_domain());
-    {
-      let return_locs = body
-        .basic_blocks
-        .iter_enumerated()
-        .filter_map(|(bb, data)| match data.terminator().kind {
-          TerminatorKind::Return => Some(body.terminator_loc(bb)),
-          _ => None,
-        });
+    for loc in &return_locs {
+      return_state.join(flow.state_at(*loc));
+    }
 
-      for loc in return_locs {
-        return_state.join(flow.state_at(loc));
+    // If the child has multiple returns, then the branches between them influence all of its effects.
+    let mut return_deps = LocationOrArgSet::new(flow.analysis.location_domain());
+    for (bb, data) in body.basic_blocks.iter_enumerated() {
+      if let TerminatorKind::SwitchInt { discr, .. } = &data.terminator().kind
+        && let Some(discr_place) = discr.as_place()
+      {
+        let num_returns = depth_first_search(&body.basic_blocks, bb)
+          .filter(|bb| return_locs.iter().any(|loc| loc.block == *bb))
+          .count();
+        if num_returns > 1 {
+          let state = flow.state_at(body.terminator_loc(bb));
+          return_deps.union(&flow.analysis.deps_for(state, discr_place));
+        }
       }
-    };
+    }
 
     let translate_child_to_parent = |child: Place<'tcx>,
                                      mutated: bool|
@@ -218,7 +232,9 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
         return None;
       }
 
-      let child_deps = return_state.row_set(child);
+      let mut child_deps = return_state.row_set(child).clone();
+      child_deps.union(&return_deps);
+
       // An argument may have been moved or overwritten by the time the child returns, so its whole
       // initial value is an input.
       let parent_deps = parent_arg_places
-- 
2.43.0


From a964f8bdf67e7db5afb9283111e2cea7a0f9f5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:07 +0000
Subject: [PATCH 14/26] fix: don't recurse into functions that can't see the
 references in their arguments

---
 crates/flowistry/src/infoflow/recursive.rs | 37 ++++++++++++++++++++--
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index 606b625..7d125b7 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -4,7 +4,7 @@ use log::{debug, info};
 use rustc_data_structures::graph::depth_first_search;
 use rustc_middle::{
   mir::*,
-  ty::{ClosureKind, GenericArgKind, TyKind, TypeVisitableExt},
+  ty::{ClosureKind, GenericArg, GenericArgKind, TyKind, TypeVisitableExt},
 };
 use rustc_mir_dataflow::JoinSemiLattice;
 use rustc_utils::{
@@ -51,8 +51,8 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
       }
     };
 
-    let def_id = match func.const_.ty().kind() {
-      TyKind::FnDef(def_id, _) => def_id,
+    let (def_id, substs) = match func.const_.ty().kind() {
+      TyKind::FnDef(def_id, substs) => (def_id, substs),
       _ => {
         debug!("  Func is not a FnDef");
         return false;
@@ -114,6 +114,22 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
       return false;
     }
 
+    // The child can't see the references inside values of a generic type or a trait object,
+    // so it misses the mutations through them.
+    let hides_mut_refs = |arg: GenericArg<'tcx>| match arg.kind() {
+      GenericArgKind::Type(ty) => match ty.kind() {
+        TyKind::Ref(_, _, mutability) => mutability.is_mut(),
+        TyKind::Adt(_, substs) => substs.regions().next().is_some(),
+        TyKind::RawPtr(..) | TyKind::Dynamic(..) => true,
+        _ => false,
+      },
+      _ => false,
+    };
+    if substs.types().any(|ty| ty.walk().any(hides_mut_refs)) {
+      debug!("  Func has mutable references in its type arguments");
+      return false;
+    }
+
     let recursive = BODY_STACK.with(|body_stack| {
       let body_stack = body_stack.borrow();
       body_stack.contains(&body_id)
@@ -131,6 +147,21 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
     });
     let body = &body_with_facts.body;
 
+    // Likewise for the trait objects that the child can mutate.
+    let any_dyn_inputs = flow.analysis.place_info.all_args().any(|(place, _)| {
+      let ty = place.ty(body.local_decls(), tcx).ty;
+      !matches!(ty.ref_mutability(), Some(Mutability::Not))
+        && ty.walk().any(|arg| {
+          arg
+            .as_type()
+            .is_some_and(|ty| matches!(ty.kind(), TyKind::Dynamic(..)))
+        })
+    });
+    if any_dyn_inputs {
+      debug!("  Func has trait objects in its arguments");
+      return false;
+    }
+
     let return_locs = body.all_returns().collect::<Vec<_>>();
 
     let mut return_state = FlowDomain::new(flow.analysis.location_domain());
-- 
2.43.0


From 88f437a87ef0509db5bd72788987a0028ebf8272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:49 +0000
Subject: [PATCH 15/26] fix: don't recurse into a trait method's default body

---
 crates/flowistry/src/infoflow/recursive.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index 7d125b7..5396e85 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -67,6 +67,12 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
       return false;
     }
 
+    // A trait's default body might be overridden by the implementation being called.
+    if tcx.trait_of_assoc(*def_id).is_some() {
+      debug!("  Func is a trait method");
+      return false;
+    }
+
     let node = match tcx.hir_get_if_local(*def_id) {
       Some(node) => node,
       None => {
-- 
2.43.0


From 66eadf935f3c170773f6e418d310803f5fff4dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:39 +0000
Subject: [PATCH 16/26] fix: a call overwrites its whole destination when
 recursing

---
 crates/flowistry/src/infoflow/recursive.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index 5396e85..5860df1 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -259,6 +259,13 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
       Some(parent_arg_projected)
     };
 
+    // The call overwrites its whole destination, even if the child assigns its return place in parts.
+    let destination_mutation = Mutation {
+      mutated: *destination,
+      inputs: Vec::new(),
+      status: MutationStatus::Definitely,
+    };
+
     let mutations = return_state.rows().filter_map(|(child, _)| {
       let parent = translate_child_to_parent(*child, true)?;
 
@@ -299,7 +306,7 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
           MutationStatus::Possibly
         },
       })
-    }).collect::<Vec<_>>();
+    }).chain([destination_mutation]).collect::<Vec<_>>();
 
     self.transfer_function(state, mutations, location);
 
-- 
2.43.0


From df393ad63e5f3c8c799e7a498d45bc03637ce5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:55 +0000
Subject: [PATCH 17/26] fix: a query about a place behind a reference includes
 the place itself

---
 crates/flowistry/src/infoflow/analysis.rs     | 2 ++
 crates/flowistry/src/infoflow/dependencies.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index 6c53f3e..3d27182 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -136,6 +136,8 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
       .place_info
       .reachable_values(place, Mutability::Not)
       .iter()
+      // Not among the reachable values if it's behind a reference.
+      .chain([&place])
       .flat_map(|place| self.influences(*place))
     {
       deps.union(state.row_set(&self.place_info.normalize(subplace)));
diff --git a/crates/flowistry/src/infoflow/dependencies.rs b/crates/flowistry/src/infoflow/dependencies.rs
index 71e0995..ef1a90d 100644
--- a/crates/flowistry/src/infoflow/dependencies.rs
+++ b/crates/flowistry/src/infoflow/dependencies.rs
@@ -44,6 +44,8 @@ impl TargetDeps {
       place_info
         .reachable_values(*place, Mutability::Not)
         .iter()
+        // Not among the reachable values if it's behind a reference.
+        .chain([place])
         .map(move |reachable| (*reachable, *location))
     });
 
-- 
2.43.0


From 63f6d9abab72275965871df97aaf4fd7edc3143b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:47 +0000
Subject: [PATCH 18/26] Verification hooks behind --cfg vp_hooks

---
 crates/flowistry/src/infoflow/mod.rs | 25 +++++++++++++++++++++++++
 crates/flowistry/src/lib.rs          |  2 ++
 crates/flowistry_ide/src/lib.rs      |  8 ++++++++
 crates/flowistry_ifc/src/lib.rs      | 18 ++++++++++++++++++
 4 files changed, 53 insertions(+)

diff --git a/crates/flowistry/src/infoflow/mod.rs b/crates/flowistry/src/infoflow/mod.rs
index cf720a0..d486e40 100644
--- a/crates/flowistry/src/infoflow/mod.rs
+++ b/crates/flowistry/src/infoflow/mod.rs
@@ -66,6 +66,28 @@ thread_local! {
     const { RefCell::new(Vec::new()) };
 }
 
+/// Verification hook: lets an observer see (and replace the states of) the results
+/// of every [`compute_flow`] on this thread.
+#[allow(missing_docs, clippy::type_complexity)]
+#[cfg(vp_hooks)]
+pub mod vp_hooks {
+  use std::{cell::RefCell, rc::Rc};
+
+  use super::FlowResults;
+
+  thread_local! {
+    pub static OBSERVER: RefCell<Option<Rc<dyn Fn(&FlowResults<'_, '_>)>>> =
+      const { RefCell::new(None) };
+  }
+
+  pub(super) fn results(results: &FlowResults<'_, '_>) {
+    let observer = OBSERVER.with(|o| o.borrow().clone());
+    if let Some(f) = observer {
+      f(results)
+    }
+  }
+}
+
 /// Computes information flow for a MIR body.
 ///
 /// See [example.rs](https://github.com/willcrichton/flowistry/tree/master/crates/flowistry/examples/example.rs)
@@ -130,6 +152,9 @@ pub fn compute_flow<'a, 'tcx>(
 
     body_stack.borrow_mut().pop();
 
+    #[cfg(vp_hooks)]
+    vp_hooks::results(&results);
+
     results
   })
 }
diff --git a/crates/flowistry/src/lib.rs b/crates/flowistry/src/lib.rs
index 00bc664..d33d2dd 100644
--- a/crates/flowistry/src/lib.rs
+++ b/crates/flowistry/src/lib.rs
@@ -49,6 +49,8 @@
   clippy::len_without_is_empty
 )]
 #![warn(missing_docs)]
+// for `vp_hooks`, set to expose internals to verification
+#![allow(unexpected_cfgs)]
 
 extern crate either;
 extern crate polonius_engine;
diff --git a/crates/flowistry_ide/src/lib.rs b/crates/flowistry_ide/src/lib.rs
index 65c4eb9..e6a8f79 100644
--- a/crates/flowistry_ide/src/lib.rs
+++ b/crates/flowistry_ide/src/lib.rs
@@ -6,6 +6,8 @@
   clippy::len_zero,
   clippy::let_and_return
 )]
+// for `vp_hooks`, set to expose internals to verification
+#![allow(unexpected_cfgs)]
 
 extern crate either;
 extern crate rustc_data_structures;
@@ -29,3 +31,9 @@ mod plugin;
 mod spans;
 
 pub use plugin::FlowistryPlugin;
+
+/// Verification hook: exposes the analyses without running the compiler driver.
+#[cfg(vp_hooks)]
+pub mod vp_hooks {
+  pub use crate::{focus::*, spans::*};
+}
diff --git a/crates/flowistry_ifc/src/lib.rs b/crates/flowistry_ifc/src/lib.rs
index e703540..0fd081e 100644
--- a/crates/flowistry_ifc/src/lib.rs
+++ b/crates/flowistry_ifc/src/lib.rs
@@ -1,4 +1,6 @@
 #![feature(rustc_private)]
+// for `vp_hooks`, set to expose internals to verification
+#![allow(unexpected_cfgs)]
 
 extern crate rustc_data_structures;
 extern crate rustc_driver;
@@ -13,6 +15,22 @@ extern crate rustc_traits;
 
 mod analysis;
 
+/// Verification hook: exposes the analysis without running the compiler driver.
+#[cfg(vp_hooks)]
+pub mod vp_hooks {
+  pub use crate::analysis::*;
+
+  /// The verdict on the whole crate.
+  pub fn check_crate(tcx: rustc_middle::ty::TyCtxt<'_>) -> IssueFound {
+    let mut visitor = crate::IfcVisitor {
+      tcx,
+      issue_found: IssueFound::No,
+    };
+    tcx.hir_visit_all_item_likes_in_crate(&mut visitor);
+    visitor.issue_found
+  }
+}
+
 use std::{borrow::Cow, io::Write};
 
 use analysis::IssueFound;
-- 
2.43.0


From ca9b3aefeb7de7c355889ecd78349366f6dc28fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:23 +0000
Subject: [PATCH 19/26] fix: don't crash on functions that never return

---
 crates/flowistry_ifc/src/analysis.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/flowistry_ifc/src/analysis.rs b/crates/flowistry_ifc/src/analysis.rs
index c2afa95..e89bea1 100644
--- a/crates/flowistry_ifc/src/analysis.rs
+++ b/crates/flowistry_ifc/src/analysis.rs
@@ -96,14 +96,17 @@ pub fn analyze(body_id: &BodyId, results: &FlowResults) -> Result<IssueFound> {
   let secure_places = find_implements(ifc_items["Secure"]);
   let insecure_places = find_implements(ifc_items["Insecure"]);
 
-  let final_state = body
+  let Some(final_state) = body
     .all_returns()
     .map(|location| results.state_at(location).clone())
     .reduce(|mut a, b| {
       a.join(&b);
       a
     })
-    .unwrap();
+  else {
+    // The function never returns, so there is no final state to leak anything.
+    return Ok(IssueFound::No);
+  };
 
   let mut errors = Vec::new();
   for secure in secure_places.iter() {
-- 
2.43.0


From d1078927f6bb1a589331a07ea5247606a23a80d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:23 +0000
Subject: [PATCH 20/26] fix: don't report flows from secure data that doesn't
 exist at any return

---
 crates/flowistry_ifc/src/analysis.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/flowistry_ifc/src/analysis.rs b/crates/flowistry_ifc/src/analysis.rs
index e89bea1..6225443 100644
--- a/crates/flowistry_ifc/src/analysis.rs
+++ b/crates/flowistry_ifc/src/analysis.rs
@@ -111,6 +111,10 @@ pub fn analyze(body_id: &BodyId, results: &FlowResults) -> Result<IssueFound> {
   let mut errors = Vec::new();
   for secure in secure_places.iter() {
     let secure_deps = results.analysis.deps_for(&final_state, *secure);
+    if secure_deps.is_empty() {
+      // Never initialized on the way to a return, so there is nothing to leak.
+      continue;
+    }
     for insecure in insecure_places.iter() {
       let insecure_deps = results.analysis.deps_for(&final_state, *insecure);
       if insecure_deps.is_superset(&secure_deps) {
-- 
2.43.0


From f943405fa16c4feea44a87d6dfd0000faf955320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:57 +0000
Subject: [PATCH 21/26] fix: order the ranges found in the editor by size, not
 by its decimal digits

---
 ide/src/range.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ide/src/range.ts b/ide/src/range.ts
index f9e4fdf..663cbeb 100644
--- a/ide/src/range.ts
+++ b/ide/src/range.ts
@@ -112,7 +112,11 @@ export class RangeTree<T> {
 
     ["contained", "containing", "overlapping"].forEach((k) => {
       let final_ = final as any;
-      final_[k] = _.orderBy(final_[k], ({ range }) => [range.end.line - range.start.line, range.end.column - range.start.column]);
+      // one iteratee per criterion: an array returned by a single one would be compared as a string
+      final_[k] = _.orderBy(final_[k], [
+        ({ range }) => range.end.line - range.start.line,
+        ({ range }) => range.end.column - range.start.column,
+      ]);
     });
 
     console.log("Querying", query, "for result", final);
-- 
2.43.0


From 6f68a115f33929e8e03e3f2ff32953b7b622c2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:24 +0000
Subject: [PATCH 22/26] fix: don't show slices of text that has changed since
 the analysis started

---
 ide/src/focus.ts | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index 161ecd5..2842094 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -153,10 +153,11 @@ class FocusDocumentState {
   };
 
   on_change_selection = async (
-    editor: vscode.TextEditor
+    editor: vscode.TextEditor,
+    is_current: () => boolean
   ): Promise<FlowistryResult<null>> => {
     let body_state_res = await this.get_body_state(editor);
-    if (body_state_res === null) {
+    if (body_state_res === null || !is_current()) {
       return ok(null);
     }
 
@@ -258,6 +259,9 @@ export class FocusMode {
   mode: StatusBarState = "idle";
   state: Map<string, FocusDocumentState | "notfound"> = new Map();
 
+  // changes whenever the results of analyses still running are not wanted anymore
+  private generation: number = 0;
+
   doc_save_callback?: vscode.Disposable;
   doc_edit_callback?: vscode.Disposable;
   selection_change_callback?: vscode.Disposable;
@@ -275,6 +279,7 @@ export class FocusMode {
 
         if (event.document === doc && doc.isDirty) {
           this.state.clear();
+          this.generation += 1;
 
           if (this.mode !== "idle") {
             this.set_mode("unsaved");
@@ -313,6 +318,18 @@ export class FocusMode {
     }
   };
 
+  private is_current = (): (() => boolean) => {
+    let generation = this.generation;
+    return () => {
+      if (this.generation !== generation) {
+        // running the analysis has changed the status bar
+        this.set_mode(this.mode);
+        return false;
+      }
+      return true;
+    };
+  };
+
   private get_doc_state = async (
     editor: vscode.TextEditor,
     userActivated: boolean = false
@@ -321,12 +338,16 @@ export class FocusMode {
       return null;
     }
 
+    let is_current = this.is_current();
     this.set_mode("loading");
 
     let filename = editor.document.fileName;
     let doc_state_opt = this.state.get(filename);
     if (!doc_state_opt) {
       let doc_state_res = await FocusDocumentState.load(editor);
+      if (!is_current()) {
+        return null;
+      }
       if (is_ok(doc_state_res)) {
         this.state.set(filename, doc_state_res.value);
       } else {
@@ -372,12 +393,16 @@ export class FocusMode {
       return;
     }
 
+    let is_current = this.is_current();
     let doc_state = await this.get_doc_state(editor, userActivated);
     if (doc_state === null) {
       return;
     }
 
-    let result = await doc_state.on_change_selection(editor);
+    let result = await doc_state.on_change_selection(editor, is_current);
+    if (!is_current()) {
+      return;
+    }
     await this.handle_analysis_result(result, userActivated);
   };
 
@@ -420,12 +445,16 @@ export class FocusMode {
         this.register_callbacks();
       }
 
+      let is_current = this.is_current();
       let doc_state = await this.get_doc_state(editor, true);
       if (doc_state === null) {
         return;
       }
 
       let result = await f(editor, doc_state);
+      if (!is_current()) {
+        return;
+      }
       await this.handle_analysis_result(result, true);
       await this.update_slice(true);
     };
@@ -446,6 +475,7 @@ export class FocusMode {
       this.register_callbacks();
       await this.update_slice(true);
     } else {
+      this.generation += 1;
       this.set_mode("idle");
       this.clear_ranges();
       this.dispose_callbacks();
-- 
2.43.0


From 53c2a8d6aab7e497ca8caa90761afa3603bb7fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:45 +0000
Subject: [PATCH 23/26] fix: find the Cargo project of the open file, not just
 the workspace folder

---
 ide/src/setup.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ide/src/setup.ts b/ide/src/setup.ts
index 1bd24e3..1dad0dc 100644
--- a/ide/src/setup.ts
+++ b/ide/src/setup.ts
@@ -156,9 +156,9 @@ let findWorkspaceRoot = async (): Promise<string | null> => {
   let folderSubdirTil = (idx: number) =>
     path.join(folderPath, ...components.slice(0, idx));
   let prefixHasToml = await Promise.all(
-    _.range(components.length).map((idx) => ({
+    _.range(components.length).map(async (idx) => ({
       idx,
-      has: hasCargoToml(folderSubdirTil(idx)),
+      has: await hasCargoToml(folderSubdirTil(idx)),
     }))
   );
   let entry = prefixHasToml.find(({ has }) => has);
-- 
2.43.0


From 6c08267ef7bd7b1f50bc4df90af543644e691ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:23 +0000
Subject: [PATCH 24/26] fix: show what is being waited for in the status bar's
 tooltip

---
 ide/src/status_bar.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ide/src/status_bar.ts b/ide/src/status_bar.ts
index ee205ce..44c9ef9 100644
--- a/ide/src/status_bar.ts
+++ b/ide/src/status_bar.ts
@@ -59,6 +59,7 @@ const config_for_state: Record<StatusBarState, StatusBarConfig> = {
 export class StatusBar {
   bar_item: vscode.StatusBarItem;
   state: StatusBarState = "loading";
+  tooltip: string = "";
 
   constructor(context: vscode.ExtensionContext) {
     this.bar_item = vscode.window.createStatusBarItem();
@@ -68,7 +69,7 @@ export class StatusBar {
 
   set_state(state: StatusBarState, tooltip: string = "") {
     this.state = state;
-    this.bar_item.tooltip = tooltip;
+    this.tooltip = tooltip;
     this.render();
   }
 
@@ -78,6 +79,6 @@ export class StatusBar {
     this.bar_item.backgroundColor = new vscode.ThemeColor(config.background);
     this.bar_item.text = `$(${config.icon}) flowistry`;
     this.bar_item.command = config.command;
-    this.bar_item.tooltip = config.tooltip;
+    this.bar_item.tooltip = config.tooltip || this.tooltip;
   }
 }
-- 
2.43.0


From 24aeae18824285744d11f896df6fdabf7d4b3bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:44 +0000
Subject: [PATCH 25/26] fix: remove the highlights of all visible documents
 when focus mode is switched off

---
 ide/src/focus.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index 2842094..8d7cd0e 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -477,7 +477,7 @@ export class FocusMode {
     } else {
       this.generation += 1;
       this.set_mode("idle");
-      this.clear_ranges();
+      vscode.window.visibleTextEditors.forEach(clear_ranges);
       this.dispose_callbacks();
       await hide_error();
     }
-- 
2.43.0


From e7b0f4874e5058a73dd165071e3830a3988aa1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:43 +0000
Subject: [PATCH 26/26] fix: mutate what a callee changes through private
 pointers

---
 crates/flowistry/src/infoflow/recursive.rs | 31 ++++++++++++++++------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index 5860df1..0c4f3e6 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -193,7 +193,7 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
 
     let translate_child_to_parent = |child: Place<'tcx>,
                                      mutated: bool|
-     -> Option<Place<'tcx>> {
+     -> Option<(Place<'tcx>, bool)> {
       let child_ty = child.ty(body.local_decls(), tcx).ty;
       if child_ty.is_unit() {
         return None;
@@ -222,14 +222,16 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
 
       let mut projection = parent_toplevel_arg.projection.to_vec();
       let mut ty = parent_toplevel_arg.ty(self.body.local_decls(), tcx);
+      let mut behind_private_pointer = false;
       log::debug!("Adding child {child:?} to parent {parent_toplevel_arg:?}");
-      for elem in child.projection.iter() {
+      for (i, elem) in child.projection.iter().enumerate() {
         // Don't continue if we reach a private field
         if let ProjectionElem::Field(field, _) = elem
           && let Some(adt_def) = ty.ty.ty_adt_def()
           && let field = adt_def.all_fields().nth(field.as_usize()).unwrap()
           && !field.vis.is_accessible_from(self.def_id, self.tcx)
         {
+          behind_private_pointer = child.projection[i ..].contains(&ProjectionElem::Deref);
           break;
         }
 
@@ -256,7 +258,7 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
       }
 
       let parent_arg_projected = Place::make(parent_toplevel_arg.local, &projection, tcx);
-      Some(parent_arg_projected)
+      Some((parent_arg_projected, behind_private_pointer))
     };
 
     // The call overwrites its whole destination, even if the child assigns its return place in parts.
@@ -267,7 +269,7 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
     };
 
     let mutations = return_state.rows().filter_map(|(child, _)| {
-      let parent = translate_child_to_parent(*child, true)?;
+      let (parent, behind_private_pointer) = translate_child_to_parent(*child, true)?;
 
       let was_return: bool = child.local == RETURN_PLACE;
       // > 1 because arguments will always have their synthetic location in their dep set
@@ -297,16 +299,29 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
         "child {child:?} \n  / child_deps {child_deps:?}\n-->\nparent {parent:?}\n   / parent_deps {parent_deps:?}"
       );
 
-      Some(Mutation {
+      // The parent can't name a private pointer, so anything reachable may have been mutated through it.
+      let mut mutations = Vec::new();
+      if behind_private_pointer && !was_return {
+        let reachable = self.place_info.reachable_values(parent, Mutability::Mut);
+        mutations.extend(reachable.iter().filter(|place| **place != parent).map(|place| {
+          Mutation {
+            mutated: *place,
+            inputs: parent_deps.clone(),
+            status: MutationStatus::Possibly,
+          }
+        }));
+      }
+      mutations.push(Mutation {
         mutated: parent,
-        inputs: parent_deps.clone(),
+        inputs: parent_deps,
         status: if was_return {
           MutationStatus::Definitely
         } else {
           MutationStatus::Possibly
         },
-      })
-    }).chain([destination_mutation]).collect::<Vec<_>>();
+      });
+      Some(mutations)
+    }).flatten().chain([destination_mutation]).collect::<Vec<_>>();
 
     self.transfer_function(state, mutations, location);
 
-- 
2.43.0

