"""P36: minimize gives every Rust type the MiniRust type with its layout, validity and aliasing information."""
import mz
from tool import book

META = dict(rule="Decision table: for every kind of Rust type, the MiniRust type, the pointee information and the positions of interior mutability computed on every path are compared with what the Rust type means; what the table does not list must be refused.")
T = r"""
## mz::Ctxt::pointee_info_of(self, ty, span)
is_sized(rslayout(ty).layout) & is_power_of_two(bytes(align(rslayout(ty).layout).abi)) => PointeeInfo{layout: Sized(bytes(size(rslayout(ty).layout)), bytes(align(rslayout(ty).layout).abi)), inhabited: !(is_uninhabited(rslayout(ty).layout)), unsafe_cells: Sized{cells: sorted(cells_in_sized_ty(self, ty, span) by each(cells_in_sized_ty(self, ty, span)).0)}, freeze: is_freeze(ty, self.tcx, fully_monomorphized()), unpin: is_unpin(ty, self.tcx, fully_monomorphized())}
not is_sized(rslayout(ty).layout) & kind(ty) is Dynamic => PointeeInfo{layout: TraitObject(trait_name(ty)), inhabited: !(is_uninhabited(rslayout(ty).layout)), unsafe_cells: TraitObject, freeze: is_freeze(ty, self.tcx, fully_monomorphized()), unpin: is_unpin(ty, self.tcx, fully_monomorphized())}
not is_sized(rslayout(ty).layout) & kind(ty) is Slice & is_power_of_two(bytes(align(rslayout(kind(ty).Slice.0).layout).abi)) => PointeeInfo{layout: Slice(bytes(size(rslayout(kind(ty).Slice.0).layout)), bytes(align(rslayout(kind(ty).Slice.0).layout).abi)), inhabited: !(is_uninhabited(rslayout(ty).layout)), unsafe_cells: Slice{element_cells: sorted(cells_in_sized_ty(self, kind(ty).Slice.0, span) by each(cells_in_sized_ty(self, kind(ty).Slice.0, span)).0)}, freeze: is_freeze(ty, self.tcx, fully_monomorphized()), unpin: is_unpin(ty, self.tcx, fully_monomorphized())}
not is_sized(rslayout(ty).layout) & kind(ty) is Str => PointeeInfo{layout: Slice(1, 1), inhabited: !(is_uninhabited(rslayout(ty).layout)), unsafe_cells: Slice{element_cells: []}, freeze: is_freeze(ty, self.tcx, fully_monomorphized()), unpin: is_unpin(ty, self.tcx, fully_monomorphized())}
## mz::Ctxt::translate_ty(self, ty, span)
get(self.ty_cache, ty) is None & kind(ty) is Tuple => tuple_from_layout(self, rslayout(ty), span)
get(self.ty_cache, ty) is None & kind(ty) is Never => Enum{variants: [], discriminant_ty: IntType{signed: Unsigned, size: 1}, discriminator: Invalid, size: 0, align: 1}
get(self.ty_cache, ty) is None & kind(ty) is Closure => tuple_from_layout(self, rslayout(ty), span)
get(self.ty_cache, ty) is None & kind(ty) is Dynamic => TraitObject(trait_name(ty))
get(self.ty_cache, ty) is None & kind(ty) is FnPtr => Ptr(FnPtr)
get(self.ty_cache, ty) is None & kind(ty) is FnDef => type(self.tcx.types.unit)
get(self.ty_cache, ty) is None & kind(ty) is Ref & kind(ty).Ref.2 is Not => Ptr(Ref{mutbl: Immutable, pointee: pointee(kind(ty).Ref.1)})
get(self.ty_cache, ty) is None & kind(ty) is Ref & kind(ty).Ref.2 is Mut => Ptr(Ref{mutbl: Mutable, pointee: pointee(kind(ty).Ref.1)})
get(self.ty_cache, ty) is None & kind(ty) is RawPtr => Ptr(Raw{meta_kind: meta_kind(pointee(kind(ty).RawPtr.0).layout)})
get(self.ty_cache, ty) is None & kind(ty) is Slice => Slice{elem: type(kind(ty).Slice.0)}
get(self.ty_cache, ty) is None & kind(ty) is Pat => type(kind(ty).Pat.0)
get(self.ty_cache, ty) is None & kind(ty) is Array => Array{elem: type(kind(ty).Array.0), count: try_to_target_usize(kind(ty).Array.1, self.tcx)!}
get(self.ty_cache, ty) is None & kind(ty) is Str => Slice{elem: u8}
get(self.ty_cache, ty) is None & kind(ty) is Adt & adtkind(kind(ty).Adt.0) is Box => Ptr(Box{pointee: pointee(expect_boxed_ty(ty))})
get(self.ty_cache, ty) is None & kind(ty) is Adt & adtkind(kind(ty).Adt.0) is Struct => Tuple{sized_fields: translate_non_enum_adt(self, ty, kind(ty).Adt.0, kind(ty).Adt.1, span).0, sized_head_layout: TupleHeadLayout{end: translate_non_enum_adt(self, ty, kind(ty).Adt.0, kind(ty).Adt.1, span).1, align: translate_non_enum_adt(self, ty, kind(ty).Adt.0, kind(ty).Adt.1, span).2, packed_align: None}, unsized_field: None}
get(self.ty_cache, ty) is None & kind(ty) is Adt & adtkind(kind(ty).Adt.0) is UnsafeCell => Tuple{sized_fields: translate_non_enum_adt(self, ty, kind(ty).Adt.0, kind(ty).Adt.1, span).0, sized_head_layout: TupleHeadLayout{end: translate_non_enum_adt(self, ty, kind(ty).Adt.0, kind(ty).Adt.1, span).1, align: translate_non_enum_adt(self, ty, kind(ty).Adt.0, kind(ty).Adt.1, span).2, packed_align: None}, unsized_field: None}
get(self.ty_cache, ty) is None & kind(ty) is Adt & adtkind(kind(ty).Adt.0) is Union => Union{fields: translate_non_enum_adt(self, ty, kind(ty).Adt.0, kind(ty).Adt.1, span).0, chunks: calc_chunks(translate_non_enum_adt(self, ty, kind(ty).Adt.0, kind(ty).Adt.1, span).0, translate_non_enum_adt(self, ty, kind(ty).Adt.0, kind(ty).Adt.1, span).1), size: translate_non_enum_adt(self, ty, kind(ty).Adt.0, kind(ty).Adt.1, span).1, align: translate_non_enum_adt(self, ty, kind(ty).Adt.0, kind(ty).Adt.1, span).2}
get(self.ty_cache, ty) is None & kind(ty) is Adt & adtkind(kind(ty).Adt.0) is Enum => translate_enum(self, ty, kind(ty).Adt.0, kind(ty).Adt.1, span)
get(self.ty_cache, ty) is None & kind(ty) is Uint => Int(IntType{signed: Unsigned, size: bytes(size(<r::Integer as r::IntegerExt>::from_uint_ty(self.tcx, kind(ty).Uint.0)))})
get(self.ty_cache, ty) is None & kind(ty) is Int => Int(IntType{signed: Signed, size: bytes(size(<r::Integer as r::IntegerExt>::from_int_ty(self.tcx, kind(ty).Int.0)))})
get(self.ty_cache, ty) is None & kind(ty) is Char => u32
get(self.ty_cache, ty) is None & kind(ty) is Bool => Bool
get(self.ty_cache, ty) is Some => self.ty_cache[ty]
## mz::Ctxt::cells_in_sized_ty(self, ty, span)
kind(ty) is Tuple => cells_from_layout(self, rslayout(ty), span)
kind(ty) is Never => []
kind(ty) is Closure => cells_from_layout(self, rslayout(ty), span)
kind(ty) is FnPtr => []
kind(ty) is FnDef => []
kind(ty) is Ref => []
kind(ty) is RawPtr => []
kind(ty) is Array & len(cells_in_sized_ty(self, kind(ty).Array.0, span)) == 0 => [] OR flat_map(Range{start: 0, end: try_to_target_usize(kind(ty).Array.1, self.tcx)!}, [((bytes(rslayout(kind(ty).Array.0).size) * each(Range{start: 0, end: try_to_target_usize(kind(ty).Array.1, self.tcx)!}) + each(cells_in_sized_ty(self, kind(ty).Array.0, span)).0), each(cells_in_sized_ty(self, kind(ty).Array.0, span)).1) for cells_in_sized_ty(self, kind(ty).Array.0, span)])
kind(ty) is Array & not len(cells_in_sized_ty(self, kind(ty).Array.0, span)) == 0 => flat_map(Range{start: 0, end: try_to_target_usize(kind(ty).Array.1, self.tcx)!}, [((bytes(rslayout(kind(ty).Array.0).size) * each(Range{start: 0, end: try_to_target_usize(kind(ty).Array.1, self.tcx)!}) + each(cells_in_sized_ty(self, kind(ty).Array.0, span)).0), each(cells_in_sized_ty(self, kind(ty).Array.0, span)).1) for cells_in_sized_ty(self, kind(ty).Array.0, span)])
kind(ty) is Adt & adtkind(kind(ty).Adt.0) is Box => []
kind(ty) is Adt & adtkind(kind(ty).Adt.0) is UnsafeCell => [(0, bytes(rslayout(ty).size))]
kind(ty) is Adt & adtkind(kind(ty).Adt.0) is Struct => cells_from_layout(self, rslayout(ty), span)
kind(ty) is Adt & adtkind(kind(ty).Adt.0) is Union & is_freeze(ty, self.tcx, fully_monomorphized()) => []
kind(ty) is Adt & adtkind(kind(ty).Adt.0) is Union & not is_freeze(ty, self.tcx, fully_monomorphized()) => [(0, bytes(rslayout(ty).size))]
kind(ty) is Adt & adtkind(kind(ty).Adt.0) is Enum & is_freeze(ty, self.tcx, fully_monomorphized()) => []
kind(ty) is Adt & adtkind(kind(ty).Adt.0) is Enum & not is_freeze(ty, self.tcx, fully_monomorphized()) => [(0, bytes(rslayout(ty).size))]
kind(ty) is Uint => []
kind(ty) is Int => []
kind(ty) is Char => []
kind(ty) is Bool => []
## mz::Ctxt::cells_from_layout(self, layout, span)
always => flat_map(Range{start: 0, end: count(layout.fields)}, [((bytes(offset(layout.fields, each(Range{start: 0, end: count(layout.fields)}))) + each(cells_in_sized_ty(self, field(layout, self, each(Range{start: 0, end: count(layout.fields)})).ty, span)).0), each(cells_in_sized_ty(self, field(layout, self, each(Range{start: 0, end: count(layout.fields)})).ty, span)).1) for cells_in_sized_ty(self, field(layout, self, each(Range{start: 0, end: count(layout.fields)})).ty, span)])
## mz::Ctxt::tuple_from_layout(self, layout, span)
is_power_of_two(bytes(layout.align.abi)) => Tuple{sized_fields: [(bytes(offset(layout.fields, each(Range{start: 0, end: count(layout.fields)}))), type(field(layout, self, each(Range{start: 0, end: count(layout.fields)})).ty)) for Range{start: 0, end: count(layout.fields)}], sized_head_layout: TupleHeadLayout{end: bytes(layout.size), align: bytes(layout.align.abi), packed_align: None}, unsized_field: None}
## mz::Ctxt::translate_adt_variant_fields(self, shape, variant, sref, span)
always => [({shape is Some: bytes(offset(shape!, each(iter_enumerated(variant.fields)).0)); !(shape is Some): 0}, type(normalize_erasing_regions(self.tcx, fully_monomorphized(), tyof(each(iter_enumerated(variant.fields)).1, self.tcx, sref)))) for iter_enumerated(variant.fields)]
## mz::Ctxt::translate_non_enum_adt(self, ty, adt_def, sref, span)
is_power_of_two(bytes(align(rslayout(ty).layout).abi)) => (translate_adt_variant_fields(self, Some(fields(rslayout(ty).layout)), non_enum_variant(adt_def), sref, span), bytes(size(rslayout(ty).layout)), bytes(align(rslayout(ty).layout).abi))
## mz::translate_mutbl(mutbl)
mutbl is Mut => Mutable
mutbl is Not => Immutable
## mz::translate_mutbl_smir(mutbl)
mutbl is Mut => Mutable
mutbl is Not => Immutable
## mz::translate_size(size)
always => bytes(size)
## mz::translate_align(align)
is_power_of_two(bytes(align)) => bytes(align)
"""


def check(c):
    mz.setup()
    n = book(c, T, mz.STEPS, shows=[("translate_ty", mz.memo("ty_cache", "ty"))], show=mz.frag)
    c.floor("translated functions", n, 11)
