"""P38: minimize lays out enums the way rustc does: every variant writes and is recognised by its own tag."""
import mz, tool
from tool import book

META = dict(rule="Decision table: for every way rustc encodes an enum (empty, single variant, direct tag, niche), the variants with their taggers, the discriminator with all its branches and the discriminant of a variant, on every path, "
                 "are compared with the encoding; what the table does not list must be refused.")
# abbreviations of the table, applied in order
TEXT = [("rslayout(ty).layout","LAY"),("variants(LAY).Multiple.tag_encoding.Niche.","NICHE."),("variants(LAY).Multiple.tag_encoding","ENC"),("variants(LAY).Multiple.variants","VARS"),
("variants(LAY).Multiple.tag_field","TAGFIELD"),("variants(LAY).Multiple.tag","TAG"),("type(<r::Primitive as r::PrimitiveExt>::to_int_ty(primitive(TAG), self.tcx)).Int.0","TAGTY"),("type(<r::Primitive as r::PrimitiveExt>::to_int_ty(primitive(TAG), self.tcx)) is Int","TAGISINT"),
("type(discriminant_ty(ty, self.tcx)).Int.0","DTY"),("each(iter_enumerated(variants(adt_def))).0","IDX"),("each(iter_enumerated(variants(adt_def))).1","DEF"),("iter_enumerated(variants(adt_def))","ALL"),
("bits(discr(self.tcx, IDX).val, DTY)","DISCR"),("bits(valid_range(TAG, self.tcx).start, TAGTY)","START"),("bits(valid_range(TAG, self.tcx).end, TAGTY)","END"),
("bytes(size(LAY))","SIZE"),("bytes(align(LAY).abi)","ALIGN"),("TupleHeadLayout{end: SIZE, align: ALIGN, packed_align: None}","HEAD"),
("bytes(offset(fields(LAY), as_usize(TAGFIELD)))","TAGOFF"),("size(TAG, self.tcx)","TAGSIZE"),
("bring_in_bounds((-1*as_usize(start(NICHE.niche_variants)) + DISCR + NICHE.niche_start), TAGTY.signed, TAGTY.size)","NTAG"),
("Tuple{sized_fields: translate_adt_variant_fields(self, Some(VARS[IDX].fields), DEF, sref, span), sized_head_layout: HEAD, unsized_field: None}","PAYLOAD"),
("[(DISCR, Variant{ty: PAYLOAD, tagger: {IDX == NICHE.untagged_variant: []; !(IDX == NICHE.untagged_variant) && is_uninhabited(VARS[IDX]): []; !(IDX == NICHE.untagged_variant) && !(is_uninhabited(VARS[IDX])): [(TAGOFF, (TAGTY, NTAG))]}}) for ALL]","NICHE_VARIANTS"),
("filter_map(ALL, {IDX == NICHE.untagged_variant && contains(NICHE.niche_variants, IDX): Some(((NTAG, (NTAG + 1)), Invalid)); IDX == NICHE.untagged_variant && !(contains(NICHE.niche_variants, IDX)): None; !(IDX == NICHE.untagged_variant) && is_uninhabited(VARS[IDX]) && contains(NICHE.niche_variants, IDX): Some(((NTAG, (NTAG + 1)), Invalid)); !(IDX == NICHE.untagged_variant) && is_uninhabited(VARS[IDX]) && !(contains(NICHE.niche_variants, IDX)): None; !(IDX == NICHE.untagged_variant) && !(is_uninhabited(VARS[IDX])): Some(((NTAG, (NTAG + 1)), Known(DISCR)))})","NICHE_BRANCHES"),
("type(discriminant_ty(ty, self.tcx)) is Int & variants(LAY) is Multiple & TAGISINT & ENC is Niche","NICHED"),
("discriminator: Branch{offset: TAGOFF, value_type: TAGTY, fallback: Known(as_usize(NICHE.untagged_variant)), children: ","UNTAGGED_UNLESS{"),
("signed_int_max(TAGSIZE)","SMAX"),("unsigned_int_max(TAGSIZE)","UMAX"),("signed_int_min(TAGSIZE)","SMIN"),
]
T = r"""
## mz::Ctxt::translate_enum(self, ty, adt_def, sref, span)
is_power_of_two(ALIGN) & type(discriminant_ty(ty, self.tcx)) is Int & variants(LAY) is Multiple & TAGISINT & ENC is Niche & (-1*START + END) >= 0 & TAGTY.signed is Signed & (-1*END + SMAX + -1) >= 0 & (-1*SMIN + START + -1) >= 0 => Enum{variants: NICHE_VARIANTS, discriminant_ty: DTY, UNTAGGED_UNLESS{minsert(minsert(NICHE_BRANCHES, ((END + 1), (SMAX + 1)), Invalid), (SMIN, START), Invalid)}, size: SIZE, align: ALIGN}
is_power_of_two(ALIGN) & type(discriminant_ty(ty, self.tcx)) is Int & variants(LAY) is Multiple & TAGISINT & ENC is Niche & (-1*START + END) >= 0 & TAGTY.signed is Signed & (-1*END + SMAX + -1) >= 0 & not (-1*SMIN + START + -1) >= 0 => Enum{variants: NICHE_VARIANTS, discriminant_ty: DTY, UNTAGGED_UNLESS{minsert(NICHE_BRANCHES, ((END + 1), (SMAX + 1)), Invalid)}, size: SIZE, align: ALIGN}
is_power_of_two(ALIGN) & type(discriminant_ty(ty, self.tcx)) is Int & variants(LAY) is Multiple & TAGISINT & ENC is Niche & (-1*START + END) >= 0 & TAGTY.signed is Signed & not (-1*END + SMAX + -1) >= 0 & (-1*SMIN + START + -1) >= 0 => Enum{variants: NICHE_VARIANTS, discriminant_ty: DTY, UNTAGGED_UNLESS{minsert(NICHE_BRANCHES, (SMIN, START), Invalid)}, size: SIZE, align: ALIGN}
is_power_of_two(ALIGN) & type(discriminant_ty(ty, self.tcx)) is Int & variants(LAY) is Multiple & TAGISINT & ENC is Niche & (-1*START + END) >= 0 & TAGTY.signed is Signed & not (-1*END + SMAX + -1) >= 0 & not (-1*SMIN + START + -1) >= 0 => Enum{variants: NICHE_VARIANTS, discriminant_ty: DTY, UNTAGGED_UNLESS{NICHE_BRANCHES}, size: SIZE, align: ALIGN}
is_power_of_two(ALIGN) & type(discriminant_ty(ty, self.tcx)) is Int & variants(LAY) is Multiple & TAGISINT & ENC is Niche & (-1*START + END) >= 0 & not TAGTY.signed is Signed & (-1*END + unSMAX + -1) >= 0 & (START + -1) >= 0 => Enum{variants: NICHE_VARIANTS, discriminant_ty: DTY, UNTAGGED_UNLESS{minsert(minsert(NICHE_BRANCHES, ((END + 1), (unSMAX + 1)), Invalid), (0, START), Invalid)}, size: SIZE, align: ALIGN}
is_power_of_two(ALIGN) & type(discriminant_ty(ty, self.tcx)) is Int & variants(LAY) is Multiple & TAGISINT & ENC is Niche & (-1*START + END) >= 0 & not TAGTY.signed is Signed & (-1*END + unSMAX + -1) >= 0 & not (START + -1) >= 0 => Enum{variants: NICHE_VARIANTS, discriminant_ty: DTY, UNTAGGED_UNLESS{minsert(NICHE_BRANCHES, ((END + 1), (unSMAX + 1)), Invalid)}, size: SIZE, align: ALIGN}
is_power_of_two(ALIGN) & type(discriminant_ty(ty, self.tcx)) is Int & variants(LAY) is Multiple & TAGISINT & ENC is Niche & (-1*START + END) >= 0 & not TAGTY.signed is Signed & not (-1*END + unSMAX + -1) >= 0 & (START + -1) >= 0 => Enum{variants: NICHE_VARIANTS, discriminant_ty: DTY, UNTAGGED_UNLESS{minsert(NICHE_BRANCHES, (0, START), Invalid)}, size: SIZE, align: ALIGN}
is_power_of_two(ALIGN) & type(discriminant_ty(ty, self.tcx)) is Int & variants(LAY) is Multiple & TAGISINT & ENC is Niche & (-1*START + END) >= 0 & not TAGTY.signed is Signed & not (-1*END + unSMAX + -1) >= 0 & not (START + -1) >= 0 => Enum{variants: NICHE_VARIANTS, discriminant_ty: DTY, UNTAGGED_UNLESS{NICHE_BRANCHES}, size: SIZE, align: ALIGN}
is_power_of_two(ALIGN) & type(discriminant_ty(ty, self.tcx)) is Int & variants(LAY) is Multiple & TAGISINT & ENC is Niche & not (-1*START + END) >= 0 & (-1*END + START + -2) >= 0 => Enum{variants: NICHE_VARIANTS, discriminant_ty: DTY, UNTAGGED_UNLESS{minsert(NICHE_BRANCHES, ((END + 1), START), Invalid)}, size: SIZE, align: ALIGN}
is_power_of_two(ALIGN) & type(discriminant_ty(ty, self.tcx)) is Int & variants(LAY) is Multiple & TAGISINT & ENC is Niche & not (-1*START + END) >= 0 & not (-1*END + START + -2) >= 0 => Enum{variants: NICHE_VARIANTS, discriminant_ty: DTY, UNTAGGED_UNLESS{NICHE_BRANCHES}, size: SIZE, align: ALIGN}
is_power_of_two(ALIGN) & type(discriminant_ty(ty, self.tcx)) is Int & variants(LAY) is Multiple & TAGISINT & ENC is Direct => Enum{variants: [(DISCR, Variant{ty: PAYLOAD, tagger: {is_uninhabited(VARS[IDX]): []; !(is_uninhabited(VARS[IDX])): [(TAGOFF, (TAGTY, DISCR))]}}) for ALL], discriminant_ty: DTY, discriminator: Branch{offset: TAGOFF, value_type: TAGTY, fallback: Invalid, children: filter_map(ALL, {is_uninhabited(VARS[IDX]): None; !(is_uninhabited(VARS[IDX])): Some(((DISCR, (DISCR + 1)), Known(DISCR)))})}, size: SIZE, align: ALIGN}
is_power_of_two(ALIGN) & type(discriminant_ty(ty, self.tcx)) is Int & variants(LAY) is Single => Enum{variants: [(DISCR, Variant{ty: Tuple{sized_fields: {IDX == variants(LAY).Single.index: translate_adt_variant_fields(self, Some(fields(LAY)), DEF, sref, span); !(IDX == variants(LAY).Single.index): translate_adt_variant_fields(self, None, DEF, sref, span)}, sized_head_layout: HEAD, unsized_field: None}, tagger: []}) for ALL], discriminant_ty: DTY, discriminator: Known(bits(discr(self.tcx, variants(LAY).Single.index).val, DTY)), size: SIZE, align: ALIGN}
is_power_of_two(ALIGN) & type(discriminant_ty(ty, self.tcx)) is Int & variants(LAY) is Empty => Enum{variants: [], discriminant_ty: DTY, discriminator: Invalid, size: SIZE, align: ALIGN}
## mz::Ctxt::discriminant_for_variant(self, ty, variant_idx, span)
kind(ty) is Adt & adtkind(kind(ty).Adt.0) is Enum & type(discriminant_ty(ty, self.tcx)) is Int => bits(discr(self.tcx, variant_idx).val, DTY)
## mz::Ctxt::discriminant_for_variant_smir(self, ty, variant_idx, span)
always => discr(i(ty), i(variant_idx))
## mz::int_from_bits(bits, ity)
ity.signed is Unsigned => truncate(from_bits(try_to_u8((8*ity.size))!), bits)
not ity.signed is Unsigned => sign_extend(from_bits(try_to_u8((8*ity.size))!), bits)
"""


def check(c):
    mz.setup()
    tool.TEXT += TEXT
    n = book(c, T, mz.STEPS, show=mz.frag)
    c.floor("translated functions", n, 4)
