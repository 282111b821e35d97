From 7b0c5f76cb3be03d2fee87ee7619d66f4f190f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:36 +0000
Subject: [PATCH 01/15] fix: minimize: cells of an array are those of each of
 its elements

The outside-cells computation for arrays treated every array as two elements long, so an UnsafeCell in
the third or a later element was considered frozen (false UB under tree borrows), and arrays with
fewer elements got cells beyond their end.
---
 tooling/minimize/src/ty.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/tooling/minimize/src/ty.rs b/tooling/minimize/src/ty.rs
index 9272e9b..d95a828 100644
--- a/tooling/minimize/src/ty.rs
+++ b/tooling/minimize/src/ty.rs
@@ -139,12 +139,9 @@ impl<'tcx> Ctxt<'tcx> {
                     let layout = self.rs_layout_of(*elem_ty);
                     let size = translate_size(layout.size);
                     let count = c.try_to_target_usize(self.tcx).unwrap();
-                    let ranges = vec![0, count];
 
-                    ranges
-                        .iter()
-                        .enumerate()
-                        .flat_map(|(i, _)| {
+                    (0..count)
+                        .flat_map(|i| {
                             let offset = size * i.into();
                             range.iter().map(move |&(start, len)| (start + offset, len))
                         })
-- 
2.43.0


From 81bd9e68a35d511c5301843b915824952eb1797e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:36 +0000
Subject: [PATCH 02/15] fix: minimize: union chunks cover the metadata of wide
 pointers

---
 tooling/minimize/src/chunks.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tooling/minimize/src/chunks.rs b/tooling/minimize/src/chunks.rs
index ab83e99..75466bc 100644
--- a/tooling/minimize/src/chunks.rs
+++ b/tooling/minimize/src/chunks.rs
@@ -45,7 +45,11 @@ fn mark_used_bytes(ty: Type, markers: &mut [bool]) {
     match ty {
         Type::Int(int_ty) => mark_size(int_ty.size, markers),
         Type::Bool => mark_size(Size::from_bytes_const(1), markers),
-        Type::Ptr(_) => mark_size(DefaultTarget::PTR_SIZE, markers),
+        Type::Ptr(_) => {
+            // Wide pointers also carry metadata.
+            let size = ty.layout::<DefaultTarget>().expect_size("pointers are always sized");
+            mark_size(size, markers)
+        }
         Type::Tuple { sized_fields, unsized_field, .. } => {
             assert!(unsized_field.extract().is_none(), "unsized types cannot be part of unions");
             for (offset, ty) in sized_fields {
-- 
2.43.0


From eff334c9eecd4ef98aaeb8d0b520cddb8ea683dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:36 +0000
Subject: [PATCH 03/15] fix: minimize: ptr_offset_from requires both pointers
 to be in bounds of one allocation

---
 tooling/minimize/src/bb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tooling/minimize/src/bb.rs b/tooling/minimize/src/bb.rs
index 786fed8..e1c3d23 100644
--- a/tooling/minimize/src/bb.rs
+++ b/tooling/minimize/src/bb.rs
@@ -531,7 +531,7 @@ impl<'cx, 'tcx> FnCtxt<'cx, 'tcx> {
 
                 // Compute distance in bytes.
                 let offset_bytes = ValueExpr::BinOp {
-                    operator: BinOp::PtrOffsetFrom { inbounds: false, nonneg: unsigned },
+                    operator: BinOp::PtrOffsetFrom { inbounds: true, nonneg: unsigned },
                     left: GcCow::new(l),
                     right: GcCow::new(r),
                 };
-- 
2.43.0


From 4752a1e7f634b06d99e8f40384ae3a8b10ab5350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:36 +0000
Subject: [PATCH 04/15] fix: minimize: a drop call that unwinds continues at
 the unwind action of the drop terminator

---
 tooling/minimize/src/bb.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tooling/minimize/src/bb.rs b/tooling/minimize/src/bb.rs
index e1c3d23..9d3c6f9 100644
--- a/tooling/minimize/src/bb.rs
+++ b/tooling/minimize/src/bb.rs
@@ -217,7 +217,7 @@ impl<'cx, 'tcx> FnCtxt<'cx, 'tcx> {
                     fallback: panic_block_name,
                 }
             }
-            rs::TerminatorKind::Drop { place, target, .. } => {
+            rs::TerminatorKind::Drop { place, target, unwind, .. } => {
                 let ty = place.ty(&self.body, self.tcx).ty;
                 let place = self.translate_place(place, span);
                 let (drop_fn, ptr_to_drop) = match ty.kind() {
@@ -253,13 +253,15 @@ impl<'cx, 'tcx> FnCtxt<'cx, 'tcx> {
                     }
                 };
 
+                let unwind_block = Some(self.translate_unwind_action(*unwind, bb));
+
                 Terminator::Call {
                     callee: drop_fn,
                     calling_convention: CallingConvention::Rust,
                     arguments: list![ArgumentExpr::ByValue(ptr_to_drop)],
                     ret: unit_place(),
                     next_block: Some(self.bb_name_map[&target]),
-                    unwind_block: None,
+                    unwind_block,
                 }
             }
             rs::TerminatorKind::UnwindResume => Terminator::ResumeUnwind,
-- 
2.43.0


From 6a9d132e14947e0d36ed3a4f1925d0e697ef9ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:58 +0000
Subject: [PATCH 05/15] fix: minimize: variants of a niche-encoded enum keep
 their discriminant, whatever the tag type

---
 tooling/minimize/src/enums.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tooling/minimize/src/enums.rs b/tooling/minimize/src/enums.rs
index 38b6e93..39f4d7b 100644
--- a/tooling/minimize/src/enums.rs
+++ b/tooling/minimize/src/enums.rs
@@ -100,7 +100,6 @@ impl<'tcx> Ctxt<'tcx> {
                             niche_variants,
                             niche_start,
                         } => {
-                            let discr_int = int_from_bits(discr.val, tag_ty);
                             let tag_int = (discr_int
                                 - Int::from(niche_variants.start().as_usize())
                                 + Int::from(*niche_start))
-- 
2.43.0


From 4ad9fa76eb7a972220dd584e3a35a1355f7ec11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:58 +0000
Subject: [PATCH 06/15] fix: minimize: uninhabited enum variants have no tag
 value

---
 tooling/minimize/src/enums.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/tooling/minimize/src/enums.rs b/tooling/minimize/src/enums.rs
index 39f4d7b..33e70ac 100644
--- a/tooling/minimize/src/enums.rs
+++ b/tooling/minimize/src/enums.rs
@@ -75,7 +75,21 @@ impl<'tcx> Ctxt<'tcx> {
                     );
                     let discr = adt_def.discriminant_for_variant(self.tcx, variant_idx);
                     let discr_int = int_from_bits(discr.val, discriminant_ty);
+                    // rustc ignores uninhabited variants when it picks the tag (values), so those
+                    // are neither written nor read: there may be no tag value for them.
+                    let uninhabited = variants[variant_idx].is_uninhabited();
                     match tag_encoding {
+                        rs::TagEncoding::Direct if uninhabited => {
+                            let variant = Variant {
+                                ty: build::tuple_ty(
+                                    &fields.iter().collect::<Vec<_>>(),
+                                    size,
+                                    align,
+                                ),
+                                tagger: Map::new(),
+                            };
+                            translated_variants.insert(discr_int, variant);
+                        }
                         rs::TagEncoding::Direct => {
                             // direct tagging places the discriminant in the tag for all variants
                             let tagger = [(tag_offset, (tag_ty, discr_int))]
@@ -104,7 +118,7 @@ impl<'tcx> Ctxt<'tcx> {
                                 - Int::from(niche_variants.start().as_usize())
                                 + Int::from(*niche_start))
                             .bring_in_bounds(tag_ty.signed, tag_ty.size);
-                            if *untagged_variant != variant_idx {
+                            if *untagged_variant != variant_idx && !uninhabited {
                                 // this is a tagged variant, meaning that it writes its tag and has a discriminator branch entry.
                                 discriminator_branches.insert(
                                     (tag_int, tag_int + Int::ONE),
@@ -125,7 +139,7 @@ impl<'tcx> Ctxt<'tcx> {
                                     },
                                 );
                             } else {
-                                // this is the untagged variant
+                                // this is the untagged variant, or an uninhabited one
                                 translated_variants.insert(
                                     discr_int,
                                     Variant {
-- 
2.43.0


From c2a2a5c0f7da014a7ffd7c8c1f92dd96345baa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:38 +0000
Subject: [PATCH 07/15] fix: minimize: arith_offset wraps around instead of
 being UB on overflow

---
 tooling/minimize/src/bb.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tooling/minimize/src/bb.rs b/tooling/minimize/src/bb.rs
index 9d3c6f9..34ed2df 100644
--- a/tooling/minimize/src/bb.rs
+++ b/tooling/minimize/src/bb.rs
@@ -514,7 +514,8 @@ impl<'cx, 'tcx> FnCtxt<'cx, 'tcx> {
                 assert!(pointee.is_sized());
                 let size = Int::from(pointee.size.bytes());
                 let size = ValueExpr::Constant(Constant::Int(size), self.translate_ty(rty, span));
-                let offset_bytes = build::mul_unchecked(r, size);
+                // This one wraps around, unlike `offset`.
+                let offset_bytes = build::mul(r, size);
 
                 let val = build::ptr_offset(l, offset_bytes, build::InBounds::No);
 
-- 
2.43.0


From e16b10c6e5a26f488bc25cac0667aa4afc3568d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:47 +0000
Subject: [PATCH 08/15] fix: minimize: the method set of a trait includes its
 supertraits' methods

---
 tooling/minimize/src/vtable.rs | 40 +++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/tooling/minimize/src/vtable.rs b/tooling/minimize/src/vtable.rs
index dbc9cc8..d35bd1d 100644
--- a/tooling/minimize/src/vtable.rs
+++ b/tooling/minimize/src/vtable.rs
@@ -110,29 +110,29 @@ impl<'tcx> Ctxt<'tcx> {
             panic!("generate_trait called on non trait object type");
         };
 
-        let Some(princial_def_id) = trait_.principal_def_id() else {
+        let mut methods = if let Some(principal) = trait_.principal() {
+            // A trait ref with `dyn Trait` as the self type.
+            // This corresponds to `dyn Trait: Trait`, which matches how the Rust compiler
+            // handles a method call on `dyn Trait`.
+            let trait_ref = principal.with_self_ty(self.tcx, trait_obj_ty);
+            let trait_ref = self.tcx.erase_and_anonymize_regions(
+                self.tcx.instantiate_bound_regions_with_erased(trait_ref),
+            );
+
+            // The method names are given by the index into the vtable. The vtable also contains
+            // the methods of the supertraits.
+            self.tcx
+                .vtable_entries(trait_ref)
+                .iter()
+                .enumerate()
+                .filter(|(_, entry)| matches!(entry, rs::VtblEntry::Method(_)))
+                .map(|(idx, _)| TraitMethodName(Name::from_internal(idx as _)))
+                .collect::<Set<_>>()
+        } else {
             // no principal trait means no methods
-            return Set::new();
+            Set::new()
         };
 
-        let existential_trait_ref =
-            self.tcx.instantiate_bound_regions_with_erased(trait_.principal().unwrap());
-        // A trait ref with `dyn Trait` as the self type.
-        // This corresponds to `dyn Trait: Trait`, which matches how the Rust compiler
-        // handles a method call on `dyn Trait`.
-        let trait_ref = existential_trait_ref.with_self_ty(self.tcx, trait_obj_ty);
-        let vtable_base = self.tcx.first_method_vtable_slot(trait_ref);
-
-        // The method names are given by the index into the vtable, which is the base offset
-        // plus the index into the "own_existential_vtable_entries" list.
-        let mut methods = self
-            .tcx
-            .own_existential_vtable_entries(princial_def_id)
-            .iter()
-            .enumerate()
-            .map(|(i, _)| TraitMethodName(Name::from_internal((vtable_base + i) as _)))
-            .collect::<Set<_>>();
-
         // Add the DropInPlace method for all traits.
         methods.insert(TraitMethodName(Name::from_internal(
             rs::COMMON_VTABLE_ENTRIES_DROPINPLACE as _,
-- 
2.43.0


From a96637d99f4541bdce77f8e8488c07b998ed7784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:59 +0000
Subject: [PATCH 09/15] fix: minimize: vtables of a dyn type without principal
 trait have a drop slot

---
 tooling/minimize/src/vtable.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tooling/minimize/src/vtable.rs b/tooling/minimize/src/vtable.rs
index d35bd1d..765e4c3 100644
--- a/tooling/minimize/src/vtable.rs
+++ b/tooling/minimize/src/vtable.rs
@@ -78,8 +78,14 @@ impl<'tcx> Ctxt<'tcx> {
                 })
                 .collect()
         } else {
-            // This dyn type has no principal trait, and therefore no methods.
-            Map::new()
+            // This dyn type has no principal trait, and therefore no methods besides dropping.
+            let drop_in_place_fn = rs::Instance::resolve_drop_in_place(self.tcx, ty);
+            [(
+                TraitMethodName(Name::from_internal(rs::COMMON_VTABLE_ENTRIES_DROPINPLACE as _)),
+                self.get_fn_name(drop_in_place_fn),
+            )]
+            .into_iter()
+            .collect()
         };
         let trait_name = self.get_trait_name(trait_obj_ty);
 
-- 
2.43.0


From f5a4949b14f45abae4e2b4b76895f620e6076c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:39 +0000
Subject: [PATCH 10/15] fix: pretty: close the parentheses of bitwise-not and
 count_ones

---
 tooling/miniutil/src/pretty/expr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tooling/miniutil/src/pretty/expr.rs b/tooling/miniutil/src/pretty/expr.rs
index e308da2..45e2ecb 100644
--- a/tooling/miniutil/src/pretty/expr.rs
+++ b/tooling/miniutil/src/pretty/expr.rs
@@ -142,9 +142,9 @@ pub(super) fn fmt_value_expr(v: ValueExpr, comptypes: &mut Vec<CompType>) -> Fmt
             let operand = fmt_value_expr(operand.extract(), comptypes).to_string();
             match operator {
                 UnOp::Int(IntUnOp::Neg) => FmtExpr::NonAtomic(format!("-({operand})")),
-                UnOp::Int(IntUnOp::BitNot) => FmtExpr::NonAtomic(format!("!({operand}")),
+                UnOp::Int(IntUnOp::BitNot) => FmtExpr::NonAtomic(format!("!({operand})")),
                 UnOp::Int(IntUnOp::CountOnes) =>
-                    FmtExpr::NonAtomic(format!("count_ones({operand}")),
+                    FmtExpr::NonAtomic(format!("count_ones({operand})")),
                 UnOp::Cast(CastOp::IntToInt(int_ty)) => {
                     let int_ty = fmt_int_type(int_ty);
                     FmtExpr::Atomic(format!("int2int<{int_ty}>({operand})"))
-- 
2.43.0


From 50f9eef207795cfbf17f227324175a0f6571cc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:39 +0000
Subject: [PATCH 11/15] fix: pretty: StopUnwind is not a start of unwinding

---
 tooling/miniutil/src/pretty/function.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tooling/miniutil/src/pretty/function.rs b/tooling/miniutil/src/pretty/function.rs
index 3e56613..51ce438 100644
--- a/tooling/miniutil/src/pretty/function.rs
+++ b/tooling/miniutil/src/pretty/function.rs
@@ -226,7 +226,7 @@ fn fmt_terminator(t: Terminator, comptypes: &mut Vec<CompType>) -> String {
         }
         Terminator::StopUnwind(block_name) => {
             let bb_name = fmt_bb_name(block_name);
-            format!("    start unwind -> unwind: {bb_name} ")
+            format!("    stop unwind -> {bb_name} ")
         }
         Terminator::ResumeUnwind => {
             format!("    resume")
-- 
2.43.0


From 1dbf095f0524d1d588daf7a7a154fc7b459fe53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:39 +0000
Subject: [PATCH 12/15] fix: pretty: separate the calling convention from the
 callee

---
 tooling/miniutil/src/pretty/function.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tooling/miniutil/src/pretty/function.rs b/tooling/miniutil/src/pretty/function.rs
index 51ce438..de2f474 100644
--- a/tooling/miniutil/src/pretty/function.rs
+++ b/tooling/miniutil/src/pretty/function.rs
@@ -163,7 +163,7 @@ fn fmt_call(
     // Format calling convention
     let conv = match conv {
         CallingConvention::Rust => format!(""),
-        c => format!("extern \"{c:?}\""),
+        c => format!("extern \"{c:?}\" "),
     };
 
     format!("    {r} = {conv}{callee}({args}){next};")
-- 
2.43.0


From 5143d229fbb074cb2f41e9c50c9e32f3ffb08c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:30 +0000
Subject: [PATCH 13/15] fix: intrinsics: do not block other spawns and joins
 while joining a thread

---
 tooling/minimize/intrinsics/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tooling/minimize/intrinsics/src/lib.rs b/tooling/minimize/intrinsics/src/lib.rs
index 92ff8d2..c6dfa7c 100644
--- a/tooling/minimize/intrinsics/src/lib.rs
+++ b/tooling/minimize/intrinsics/src/lib.rs
@@ -63,8 +63,8 @@ pub fn spawn(fn_ptr: extern "C" fn(*const ()), data_ptr: *const ()) -> usize {
 // Here a thread can only be joined once, while in MiniRust
 // a single thread can be joined many times.
 pub fn join(thread_id: usize) {
-    let mut join_handles = JOIN_HANDLES.lock().unwrap();
-    let handle = join_handles[thread_id].take().unwrap();
+    // Do not hold on to `JOIN_HANDLES` while waiting: the other thread may need it to finish.
+    let handle = JOIN_HANDLES.lock().unwrap()[thread_id].take().unwrap();
     handle.join().unwrap();
 }
 
-- 
2.43.0


From abc004f2d26542cbc6e6a031c419144e002d0ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:30 +0000
Subject: [PATCH 14/15] fix: intrinsics: acquire must not miss the release it
 waits for

---
 tooling/minimize/intrinsics/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tooling/minimize/intrinsics/src/lib.rs b/tooling/minimize/intrinsics/src/lib.rs
index c6dfa7c..16179bb 100644
--- a/tooling/minimize/intrinsics/src/lib.rs
+++ b/tooling/minimize/intrinsics/src/lib.rs
@@ -103,8 +103,10 @@ pub fn acquire(lock_id: usize) {
             return;
         }
 
-        drop(locks);
+        // Queue up before letting go of `LOCKS`: a `release` that comes after we saw the lock
+        // locked must find us in the queue.
         WAITING.lock().unwrap().push(thread::current());
+        drop(locks);
         // In principle another thread could call `unpark` here, before we
         // `park` ourselves. However, in that case the next `park` of this thread
         // is guaranteed to return immediately.
-- 
2.43.0


From c1a4aecf527515b0e99c67f675479fd9940cba67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:45 +0000
Subject: [PATCH 15/15] fix: minimize: a copied argument tuple is not passed in
 place

---
 tooling/minimize/src/bb.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tooling/minimize/src/bb.rs b/tooling/minimize/src/bb.rs
index 34ed2df..7b68795 100644
--- a/tooling/minimize/src/bb.rs
+++ b/tooling/minimize/src/bb.rs
@@ -822,9 +822,12 @@ impl<'cx, 'tcx> FnCtxt<'cx, 'tcx> {
                                     &[rs::PlaceElem::Field(rs::FieldIdx::from_usize(i), ty)],
                                     self.tcx,
                                 );
-                                ArgumentExpr::InPlace(
-                                    self.translate_place(&field_place, tuple_arg.span),
-                                )
+                                let field_place = self.translate_place(&field_place, tuple_arg.span);
+                                match &tuple_arg.node {
+                                    // Only a move hands the tuple itself to the callee.
+                                    rs::Operand::Move(_) => ArgumentExpr::InPlace(field_place),
+                                    _ => ArgumentExpr::ByValue(build::load(field_place)),
+                                }
                             })
                             .collect();
 
-- 
2.43.0

