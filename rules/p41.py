"""P41: trait objects: a trait's method set is exactly the methods its vtables provide."""
import mz, tool
from tool import book

META = dict(rule="Decision table: the name, size, alignment, interior-mutable cells and method slots of every vtable, and the method set of every trait object type, on every path, are compared with the table (method set and vtables "
                 "are read off the same list of rustc's vtable entries).")
# abbreviations of the table, applied in order
TEXT = [("kind(trait_obj_ty).Dynamic.0","PREDS"),("erase_and_anonymize_regions(self.tcx, instantiate_bound_regions_with_erased(self.tcx, with_self_ty(principal(PREDS)!, self.tcx, ty)))","TRAIT_REF"),("erase_and_anonymize_regions(self.tcx, instantiate_bound_regions_with_erased(self.tcx, with_self_ty(principal(PREDS)!, self.tcx, trait_obj_ty)))","DYN_REF"),
("vtable_entries(self.tcx, TRAIT_REF)","ENTRIES"),("vtable_entries(self.tcx, DYN_REF)","DYN_ENTRIES"),("r::TyCtxt::COMMON_VTABLE_ENTRIES","COMMON")]
T = r"""
## mz::Ctxt::get_vtable(self, ty, trait_obj_ty, span)
kind(trait_obj_ty) is Dynamic & get(self.vtable_map, (ty, PREDS)) is None => VTableName(from_internal(len(self.vtable_map))) ; .vtable_map := minsert(self.vtable_map, (ty, PREDS), VTableName(from_internal(len(self.vtable_map)))) ; .vtables := minsert(self.vtables, VTableName(from_internal(len(self.vtable_map))), generate_vtable(self, ty, trait_obj_ty, span))
kind(trait_obj_ty) is Dynamic & get(self.vtable_map, (ty, PREDS)) is Some => self.vtable_map[(ty, PREDS)]
## mz::Ctxt::generate_vtable(self, ty, trait_obj_ty, span)
kind(trait_obj_ty) is Dynamic & is_sized(rslayout(ty)) & is_power_of_two(bytes(rslayout(ty).align.abi)) & principal(PREDS) is None => VTable{trait_name: trait_name(trait_obj_ty), size: bytes(rslayout(ty).size), align: bytes(rslayout(ty).align.abi), cells: sorted(cells_in_sized_ty(self, ty, span) by each(cells_in_sized_ty(self, ty, span)).0), methods: [(TraitMethodName(from_internal(0)), fn_name(resolve_drop_in_place(self.tcx, ty)))]}
kind(trait_obj_ty) is Dynamic & is_sized(rslayout(ty)) & is_power_of_two(bytes(rslayout(ty).align.abi)) & principal(PREDS) is Some => VTable{trait_name: trait_name(trait_obj_ty), size: bytes(rslayout(ty).size), align: bytes(rslayout(ty).align.abi), cells: sorted(cells_in_sized_ty(self, ty, span) by each(cells_in_sized_ty(self, ty, span)).0), methods: filter_map(enum(ENTRIES), {each(ENTRIES) is MetadataDropInPlace: Some((TraitMethodName(from_internal(0)), fn_name(resolve_drop_in_place(self.tcx, ty)))); !(each(ENTRIES) is MetadataDropInPlace) && each(ENTRIES) is Method: Some((TraitMethodName(from_internal(pos(ENTRIES, 0))), fn_name(each(ENTRIES).Method.0))); !(each(ENTRIES) is MetadataDropInPlace) && !(each(ENTRIES) is Method): None})}
## mz::Ctxt::get_trait_name(self, trait_obj_ty)
kind(trait_obj_ty) is Dynamic & get(self.trait_map, PREDS) is None => TraitName(from_internal(len(self.trait_map))) ; .trait_map := minsert(self.trait_map, PREDS, TraitName(from_internal(len(self.trait_map)))) ; .traits := minsert(self.traits, TraitName(from_internal(len(self.trait_map))), generate_trait(self, trait_obj_ty))
kind(trait_obj_ty) is Dynamic & get(self.trait_map, PREDS) is Some => self.trait_map[PREDS]
## mz::Ctxt::generate_trait(self, trait_obj_ty)
kind(trait_obj_ty) is Dynamic & principal(PREDS) is None => sinsert([], TraitMethodName(from_internal(0)))
kind(trait_obj_ty) is Dynamic & principal(PREDS) is Some => sinsert(filter_map(enum(DYN_ENTRIES), {each(DYN_ENTRIES) is Method: Some(TraitMethodName(from_internal(pos(DYN_ENTRIES, 0)))); !(each(DYN_ENTRIES) is Method): None}), TraitMethodName(from_internal(0)))
"""


def check(c):
    mz.setup()
    tool.TEXT += TEXT
    n = book(c, T, mz.STEPS, show=mz.frag)
    c.floor("translated functions", n, 4)
