"""P15: the bytes of a value, typed loads and stores, transmutes, discriminants."""
import sp, tool

META = dict(rule="Decision table of the specification, one step at a time: for each case of one conversion between values and bytes, the result, what it leaves in every mutable argument, and the other steps it takes, in order; on every path.")
T = r"""
## Type::decode(self, bytes)
self is Enum & len(bytes) == self.Enum.size & decode_discriminant((|x0, x1| Ok(subslice(bytes, x0, x1))), self.Enum.discriminator).Ok.0 is None => None ; decode_discriminant((|x0, x1| Ok(subslice(bytes, x0, x1))), self.Enum.discriminator)?
self is Enum & len(bytes) == self.Enum.size & decode_discriminant((|x0, x1| Ok(subslice(bytes, x0, x1))), self.Enum.discriminator).Ok.0 is Some & decode(get(self.Enum.variants, decode_discriminant((|x0, x1| Ok(subslice(bytes, x0, x1))), self.Enum.discriminator).Ok.0.Some.0).Some.0.ty, bytes) is None => None ; decode_discriminant((|x0, x1| Ok(subslice(bytes, x0, x1))), self.Enum.discriminator)?
self is Enum & len(bytes) == self.Enum.size & decode_discriminant((|x0, x1| Ok(subslice(bytes, x0, x1))), self.Enum.discriminator).Ok.0 is Some & decode(get(self.Enum.variants, decode_discriminant((|x0, x1| Ok(subslice(bytes, x0, x1))), self.Enum.discriminator).Ok.0.Some.0).Some.0.ty, bytes) is Some => Some(Variant{discriminant: decode_discriminant((|x0, x1| Ok(subslice(bytes, x0, x1))), self.Enum.discriminator).Ok.0.Some.0, data: decode(get(self.Enum.variants, decode_discriminant((|x0, x1| Ok(subslice(bytes, x0, x1))), self.Enum.discriminator).Ok.0.Some.0).Some.0.ty, bytes).Some.0}) ; decode_discriminant((|x0, x1| Ok(subslice(bytes, x0, x1))), self.Enum.discriminator)?
self is Union & len(bytes) == self.Union.size => Some(Union([subslice(bytes, each(self.Union.chunks).0, each(self.Union.chunks).1) for self.Union.chunks]))
self is Array & layout(self.Array.elem) is Sized & layout(self.Array.elem).Sized.0 * self.Array.count == len(bytes) & forall Range{start: 0, end: self.Array.count}: !(!((-1*each(Range{start: 0, end: self.Array.count}) + self.Array.count + -1) >= 0)) && !(!(each(Range{start: 0, end: self.Array.count}) >= 0)) & forall [subslice(bytes, each(Range{start: 0, end: self.Array.count}) * layout(self.Array.elem).Sized.0, layout(self.Array.elem).Sized.0) for Range{start: 0, end: self.Array.count}]: decode(self.Array.elem, subslice(bytes, each(Range{start: 0, end: self.Array.count}) * layout(self.Array.elem).Sized.0, layout(self.Array.elem).Sized.0)) is Some => Some(Tuple([decode(self.Array.elem, subslice(bytes, each(Range{start: 0, end: self.Array.count}) * layout(self.Array.elem).Sized.0, layout(self.Array.elem).Sized.0)).Some.0 for Range{start: 0, end: self.Array.count}])) ; for all Range{start: 0, end: self.Array.count}: !(!((-1*each(Range{start: 0, end: self.Array.count}) + self.Array.count + -1) >= 0)) && !(!(each(Range{start: 0, end: self.Array.count}) >= 0)) ; for all [subslice(bytes, each(Range{start: 0, end: self.Array.count}) * layout(self.Array.elem).Sized.0, layout(self.Array.elem).Sized.0) for Range{start: 0, end: self.Array.count}]: decode(self.Array.elem, subslice(bytes, each(Range{start: 0, end: self.Array.count}) * layout(self.Array.elem).Sized.0, layout(self.Array.elem).Sized.0)) is Some
self is Array & layout(self.Array.elem) is Sized & layout(self.Array.elem).Sized.0 * self.Array.count == len(bytes) & decode(self.Array.elem, subslice(bytes, each(Range{start: 0, end: self.Array.count}) * layout(self.Array.elem).Sized.0, layout(self.Array.elem).Sized.0)) is None => None ; for all Range{start: 0, end: self.Array.count}: !(!((-1*each(Range{start: 0, end: self.Array.count}) + self.Array.count + -1) >= 0)) && !(!(each(Range{start: 0, end: self.Array.count}) >= 0))
self is Tuple & self.Tuple.unsized_field is None & head_size_and_align(self.Tuple.sized_head_layout).0 == len(bytes) & forall self.Tuple.sized_fields: decode(each(self.Tuple.sized_fields).1, subslice(bytes, each(self.Tuple.sized_fields).0, layout(each(self.Tuple.sized_fields).1).Sized.0)) is Some && layout(each(self.Tuple.sized_fields).1) is Sized => Some(Tuple([decode(each(self.Tuple.sized_fields).1, subslice(bytes, each(self.Tuple.sized_fields).0, layout(each(self.Tuple.sized_fields).1).Sized.0)).Some.0 for self.Tuple.sized_fields])) ; for all self.Tuple.sized_fields: decode(each(self.Tuple.sized_fields).1, subslice(bytes, each(self.Tuple.sized_fields).0, layout(each(self.Tuple.sized_fields).1).Sized.0)) is Some && layout(each(self.Tuple.sized_fields).1) is Sized
self is Tuple & self.Tuple.unsized_field is None & head_size_and_align(self.Tuple.sized_head_layout).0 == len(bytes) & layout(each(self.Tuple.sized_fields).1) is Sized & decode(each(self.Tuple.sized_fields).1, subslice(bytes, each(self.Tuple.sized_fields).0, layout(each(self.Tuple.sized_fields).1).Sized.0)) is None => None
self is Ptr & as_wide_pair(self.Ptr.0) is None & decode_ptr(bytes) is None => None
self is Ptr & as_wide_pair(self.Ptr.0) is None & decode_ptr(bytes) is Some => Some(Ptr(Pointer{thin_pointer: decode_ptr(bytes).Some.0, metadata: None}))
self is Ptr & as_wide_pair(self.Ptr.0) is Some & decode(as_wide_pair(self.Ptr.0).Some.0, bytes) is None => None
self is Ptr & as_wide_pair(self.Ptr.0) is Some & decode(as_wide_pair(self.Ptr.0).Some.0, bytes) is Some & decode(as_wide_pair(self.Ptr.0).Some.0, bytes).Some.0 is Tuple & decode(as_wide_pair(self.Ptr.0).Some.0, bytes).Some.0.Tuple.0[0] is Ptr => Some(Ptr(Pointer{thin_pointer: decode(as_wide_pair(self.Ptr.0).Some.0, bytes).Some.0.Tuple.0[0].Ptr.0.thin_pointer, metadata: decode_value(meta_kind(self.Ptr.0), decode(as_wide_pair(self.Ptr.0).Some.0, bytes).Some.0.Tuple.0[1])}))
self is Bool & (len(bytes) + -1) == 0 & bytes[0] is Uninit => None
self is Bool & (len(bytes) + -1) == 0 & bytes[0] is Init & not bytes[0].Init.0 == 0 & not (bytes[0].Init.0 + -1) == 0 => None
self is Bool & (len(bytes) + -1) == 0 & bytes[0] is Init & (bytes[0].Init.0 + -1) == 0 => Some(Bool(True))
self is Bool & (len(bytes) + -1) == 0 & bytes[0] is Init & bytes[0].Init.0 == 0 => Some(Bool(False))
self is Int & len(bytes) == self.Int.0.size & forall bytes: each(bytes) is Init => Some(Int(decode(Target::ENDIANNESS, self.Int.0.signed, [each(bytes).Init.0 for bytes]))) ; for all bytes: each(bytes) is Init
self is Int & len(bytes) == self.Int.0.size & each(bytes) is Uninit => None
## Type::encode(self, val)
self is Enum & val is Variant => after encode_discriminant((|x0, x1| (Ok(()), now(wsub(encode(get(self.Enum.variants, val.Variant.discriminant).Some.0.ty, val.Variant.data), x0, x1)))), get(self.Enum.variants, val.Variant.discriminant).Some.0.tagger)(encode(get(self.Enum.variants, val.Variant.discriminant).Some.0.ty, val.Variant.data)) ; encode_discriminant((|x0, x1| (Ok(()), now(wsub(encode(get(self.Enum.variants, val.Variant.discriminant).Some.0.ty, val.Variant.data), x0, x1)))), get(self.Enum.variants, val.Variant.discriminant).Some.0.tagger)?
self is Union & val is Union & len(self.Union.chunks) == len(val.Union.0) => loop ; loop = fold(zip(self.Union.chunks, val.Union.0), (repeat(Uninit, self.Union.size)), (each(self.Union.chunks), each(val.Union.0)), (wsub(acc0, each(self.Union.chunks).0, each(val.Union.0)))) ; for all zip(self.Union.chunks, val.Union.0): each(self.Union.chunks).1 == len(each(val.Union.0))
self is Array & val is Tuple & len(val.Tuple.0) == self.Array.count => flat_map(val.Tuple.0, encode(self.Array.elem, each(val.Tuple.0))) ; for all val.Tuple.0: layout(self.Array.elem) is Sized && layout(self.Array.elem).Sized.0 == len(encode(self.Array.elem, each(val.Tuple.0)))
self is Tuple & self.Tuple.unsized_field is None & val is Tuple & len(self.Tuple.sized_fields) == len(val.Tuple.0) => loop ; loop = fold(zip(self.Tuple.sized_fields, val.Tuple.0), (repeat(Uninit, head_size_and_align(self.Tuple.sized_head_layout).0)), (each(self.Tuple.sized_fields), each(val.Tuple.0)), (wsub(acc0, each(self.Tuple.sized_fields).0, encode(each(self.Tuple.sized_fields).1, each(val.Tuple.0)))))
self is Ptr & val is Ptr & as_wide_pair(self.Ptr.0) is None & val.Ptr.0.metadata is None => encode_ptr(val.Ptr.0.thin_pointer)
self is Ptr & val is Ptr & as_wide_pair(self.Ptr.0) is Some => encode(as_wide_pair(self.Ptr.0).Some.0, Tuple([Ptr(Pointer{thin_pointer: val.Ptr.0.thin_pointer, metadata: None}), encode_as_value(meta_kind(self.Ptr.0), val.Ptr.0.metadata)]))
self is Bool & val is Bool & val.Bool.0 => [Init(1, None)]
self is Bool & val is Bool & not val.Bool.0 => [Init(0, None)]
self is Int & val is Int => [Init(each(encode(Target::ENDIANNESS, self.Int.0.signed, self.Int.0.size, val.Int.0).Some.0), None) for encode(Target::ENDIANNESS, self.Int.0.signed, self.Int.0.size, val.Int.0).Some.0]
## decode_ptr(bytes)
Target::PTR_SIZE == len(bytes) & bytes[0].Init.1 is None & forall bytes: each(bytes) is Init & forall bytes: !(!((-1*pos(bytes, 0) + len(bytes) + -1) >= 0)) && !(!(pos(bytes, 0) >= 0)) && !(acc(enum(bytes), #0) is Some) && each(bytes) is Init && each(bytes).Init.1 is Some && each(bytes).Init.1.Some.0.position == pos(bytes, 0) || !(!((-1*pos(bytes, 0) + len(bytes) + -1) >= 0)) && !(!(pos(bytes, 0) >= 0)) && !(acc(enum(bytes), #0).Some.0 == each(bytes).Init.1.Some.0.provenance) && acc(enum(bytes), #0) is Some && each(bytes) is Init && each(bytes).Init.1 is Some && each(bytes).Init.1.Some.0.position == pos(bytes, 0) || !(!((-1*pos(bytes, 0) + len(bytes) + -1) >= 0)) && !(!(pos(bytes, 0) >= 0)) && !(each(bytes).Init.1 is Some) && each(bytes) is Init || !(!((-1*pos(bytes, 0) + len(bytes) + -1) >= 0)) && !(!(pos(bytes, 0) >= 0)) && !(each(bytes).Init.1.Some.0.position == pos(bytes, 0)) && each(bytes) is Init && each(bytes).Init.1 is Some || !(!((-1*pos(bytes, 0) + len(bytes) + -1) >= 0)) && !(!(pos(bytes, 0) >= 0)) && acc(enum(bytes), #0) is Some && acc(enum(bytes), #0).Some.0 == each(bytes).Init.1.Some.0.provenance && each(bytes) is Init && each(bytes).Init.1 is Some && each(bytes).Init.1.Some.0.position == pos(bytes, 0) || !(!((-1*pos(bytes, 0) + len(bytes) + -1) >= 0)) && !(!(pos(bytes, 0) >= 0)) && each(bytes) is Uninit => Some(ThinPointer{addr: decode(Target::ENDIANNESS, Unsigned, [each(bytes).Init.0 for bytes]), provenance: loop}) ; loop = fold(enum(bytes), (None), (pos(bytes, 0), each(bytes)), ({acc0 is Some && each(bytes) is Init && each(bytes).Init.1 is Some && acc0.Some.0 == each(bytes).Init.1.Some.0.provenance && each(bytes).Init.1.Some.0.position == pos(bytes, 0): acc0; acc0 is Some && each(bytes) is Init && each(bytes).Init.1 is Some && acc0.Some.0 == each(bytes).Init.1.Some.0.provenance && !(each(bytes).Init.1.Some.0.position == pos(bytes, 0)): None; acc0 is Some && each(bytes) is Init && each(bytes).Init.1 is Some && !(acc0.Some.0 == each(bytes).Init.1.Some.0.provenance): None; acc0 is Some && each(bytes) is Init && !(each(bytes).Init.1 is Some): None; acc0 is Some && !(each(bytes) is Init): None; !(acc0 is Some): None})) ; for all bytes: each(bytes) is Init ; for all bytes: !(!((-1*pos(bytes, 0) + len(bytes) + -1) >= 0)) && !(!(pos(bytes, 0) >= 0)) && !(acc(enum(bytes), #0) is Some) && each(bytes) is Init && each(bytes).Init.1 is Some && each(bytes).Init.1.Some.0.position == pos(bytes, 0) || !(!((-1*pos(bytes, 0) + len(bytes) + -1) >= 0)) && !(!(pos(bytes, 0) >= 0)) && !(acc(enum(bytes), #0).Some.0 == each(bytes).Init.1.Some.0.provenance) && acc(enum(bytes), #0) is Some && each(bytes) is Init && each(bytes).Init.1 is Some && each(bytes).Init.1.Some.0.position == pos(bytes, 0) || !(!((-1*pos(bytes, 0) + len(bytes) + -1) >= 0)) && !(!(pos(bytes, 0) >= 0)) && !(each(bytes).Init.1 is Some) && each(bytes) is Init || !(!((-1*pos(bytes, 0) + len(bytes) + -1) >= 0)) && !(!(pos(bytes, 0) >= 0)) && !(each(bytes).Init.1.Some.0.position == pos(bytes, 0)) && each(bytes) is Init && each(bytes).Init.1 is Some || !(!((-1*pos(bytes, 0) + len(bytes) + -1) >= 0)) && !(!(pos(bytes, 0) >= 0)) && acc(enum(bytes), #0) is Some && acc(enum(bytes), #0).Some.0 == each(bytes).Init.1.Some.0.provenance && each(bytes) is Init && each(bytes).Init.1 is Some && each(bytes).Init.1.Some.0.position == pos(bytes, 0) || !(!((-1*pos(bytes, 0) + len(bytes) + -1) >= 0)) && !(!(pos(bytes, 0) >= 0)) && each(bytes) is Uninit
Target::PTR_SIZE == len(bytes) & bytes[0].Init.1 is Some & forall bytes: each(bytes) is Init & forall bytes: !(!((-1*pos(bytes, 0) + len(bytes) + -1) >= 0)) && !(!(pos(bytes, 0) >= 0)) && !(acc(enum(bytes), #0) is Some) && each(bytes) is Init && each(bytes).Init.1 is Some && each(bytes).Init.1.Some.0.position == pos(bytes, 0) || !(!((-1*pos(bytes, 0) + len(bytes) + -1) >= 0)) && !(!(pos(bytes, 0) >= 0)) && !(acc(enum(bytes), #0).Some.0 == each(bytes).Init.1.Some.0.provenance) && acc(enum(bytes), #0) is Some && each(bytes) is Init && each(bytes).Init.1 is Some && each(bytes).Init.1.Some.0.position == pos(bytes, 0) || !(!((-1*pos(bytes, 0) + len(bytes) + -1) >= 0)) && !(!(pos(bytes, 0) >= 0)) && !(each(bytes).Init.1 is Some) && each(bytes) is Init || !(!((-1*pos(bytes, 0) + len(bytes) + -1) >= 0)) && !(!(pos(bytes, 0) >= 0)) && !(each(bytes).Init.1.Some.0.position == pos(bytes, 0)) && each(bytes) is Init && each(bytes).Init.1 is Some || !(!((-1*pos(bytes, 0) + len(bytes) + -1) >= 0)) && !(!(pos(bytes, 0) >= 0)) && acc(enum(bytes), #0) is Some && acc(enum(bytes), #0).Some.0 == each(bytes).Init.1.Some.0.provenance && each(bytes) is Init && each(bytes).Init.1 is Some && each(bytes).Init.1.Some.0.position == pos(bytes, 0) || !(!((-1*pos(bytes, 0) + len(bytes) + -1) >= 0)) && !(!(pos(bytes, 0) >= 0)) && each(bytes) is Uninit => Some(ThinPointer{addr: decode(Target::ENDIANNESS, Unsigned, [each(bytes).Init.0 for bytes]), provenance: loop}) ; loop = fold(enum(bytes), (Some(bytes[0].Init.1.Some.0.provenance)), (pos(bytes, 0), each(bytes)), ({acc0 is Some && each(bytes) is Init && each(bytes).Init.1 is Some && acc0.Some.0 == each(bytes).Init.1.Some.0.provenance && each(bytes).Init.1.Some.0.position == pos(bytes, 0): acc0; acc0 is Some && each(bytes) is Init && each(bytes).Init.1 is Some && acc0.Some.0 == each(bytes).Init.1.Some.0.provenance && !(each(bytes).Init.1.Some.0.position == pos(bytes, 0)): None; acc0 is Some && each(bytes) is Init && each(bytes).Init.1 is Some && !(acc0.Some.0 == each(bytes).Init.1.Some.0.provenance): None; acc0 is Some && each(bytes) is Init && !(each(bytes).Init.1 is Some): None; acc0 is Some && !(each(bytes) is Init): None; !(acc0 is Some): None})) ; for all bytes: each(bytes) is Init ; for all bytes: !(!((-1*pos(bytes, 0) + len(bytes) + -1) >= 0)) && !(!(pos(bytes, 0) >= 0)) && !(acc(enum(bytes), #0) is Some) && each(bytes) is Init && each(bytes).Init.1 is Some && each(bytes).Init.1.Some.0.position == pos(bytes, 0) || !(!((-1*pos(bytes, 0) + len(bytes) + -1) >= 0)) && !(!(pos(bytes, 0) >= 0)) && !(acc(enum(bytes), #0).Some.0 == each(bytes).Init.1.Some.0.provenance) && acc(enum(bytes), #0) is Some && each(bytes) is Init && each(bytes).Init.1 is Some && each(bytes).Init.1.Some.0.position == pos(bytes, 0) || !(!((-1*pos(bytes, 0) + len(bytes) + -1) >= 0)) && !(!(pos(bytes, 0) >= 0)) && !(each(bytes).Init.1 is Some) && each(bytes) is Init || !(!((-1*pos(bytes, 0) + len(bytes) + -1) >= 0)) && !(!(pos(bytes, 0) >= 0)) && !(each(bytes).Init.1.Some.0.position == pos(bytes, 0)) && each(bytes) is Init && each(bytes).Init.1 is Some || !(!((-1*pos(bytes, 0) + len(bytes) + -1) >= 0)) && !(!(pos(bytes, 0) >= 0)) && acc(enum(bytes), #0) is Some && acc(enum(bytes), #0).Some.0 == each(bytes).Init.1.Some.0.provenance && each(bytes) is Init && each(bytes).Init.1 is Some && each(bytes).Init.1.Some.0.position == pos(bytes, 0) || !(!((-1*pos(bytes, 0) + len(bytes) + -1) >= 0)) && !(!(pos(bytes, 0) >= 0)) && each(bytes) is Uninit
Target::PTR_SIZE == len(bytes) & each(bytes) is Uninit => None
## encode_ptr(ptr)
always => [Init(each(encode(Target::ENDIANNESS, Unsigned, Target::PTR_SIZE, ptr.addr).Some.0), {ptr.provenance is Some: Some(ProvenanceFrag{provenance: ptr.provenance.Some.0, position: pos(encode(Target::ENDIANNESS, Unsigned, Target::PTR_SIZE, ptr.addr).Some.0, 0)}); !(ptr.provenance is Some): None}) for enum(encode(Target::ENDIANNESS, Unsigned, Target::PTR_SIZE, ptr.addr).Some.0)] ; for all encode(Target::ENDIANNESS, Unsigned, Target::PTR_SIZE, ptr.addr).Some.0: !(!((-1*pos(encode(Target::ENDIANNESS, Unsigned, Target::PTR_SIZE, ptr.addr).Some.0, 0) + len(encode(Target::ENDIANNESS, Unsigned, Target::PTR_SIZE, ptr.addr).Some.0) + -1) >= 0)) && !(!(pos(encode(Target::ENDIANNESS, Unsigned, Target::PTR_SIZE, ptr.addr).Some.0, 0) >= 0)) && !(ptr.provenance is Some) || !(!((-1*pos(encode(Target::ENDIANNESS, Unsigned, Target::PTR_SIZE, ptr.addr).Some.0, 0) + len(encode(Target::ENDIANNESS, Unsigned, Target::PTR_SIZE, ptr.addr).Some.0) + -1) >= 0)) && !(!(pos(encode(Target::ENDIANNESS, Unsigned, Target::PTR_SIZE, ptr.addr).Some.0, 0) >= 0)) && ptr.provenance is Some
## PtrType::as_wide_pair(self)
meta_kind(self) is None => None
meta_kind(self) is ElementCount & layout(Int(IntType{signed: Unsigned, size: Target::PTR_SIZE})) is Sized & Target::PTR_SIZE == layout(Int(IntType{signed: Unsigned, size: Target::PTR_SIZE})).Sized.0 & Target::PTR_ALIGN == layout(Int(IntType{signed: Unsigned, size: Target::PTR_SIZE})).Sized.1 => Some(Tuple{sized_fields: [(0, Ptr(Raw{meta_kind: None})), (Target::PTR_SIZE, Int(IntType{signed: Unsigned, size: Target::PTR_SIZE}))], sized_head_layout: TupleHeadLayout{end: (2*Target::PTR_SIZE), align: Target::PTR_ALIGN, packed_align: None}, unsized_field: None})
meta_kind(self) is VTablePointer & layout(Ptr(VTablePtr(meta_kind(self).VTablePointer.0))) is Sized & Target::PTR_SIZE == layout(Ptr(VTablePtr(meta_kind(self).VTablePointer.0))).Sized.0 & Target::PTR_ALIGN == layout(Ptr(VTablePtr(meta_kind(self).VTablePointer.0))).Sized.1 => Some(Tuple{sized_fields: [(0, Ptr(Raw{meta_kind: None})), (Target::PTR_SIZE, Ptr(VTablePtr(meta_kind(self).VTablePointer.0)))], sized_head_layout: TupleHeadLayout{end: (2*Target::PTR_SIZE), align: Target::PTR_ALIGN, packed_align: None}, unsized_field: None})
## decode_discriminant(accessor, discriminator)
discriminator is Branch & decode(Int(discriminator.Branch.value_type), apply:accessor.Ok.0) is None => Ok(None) ; apply:accessor(accessor, discriminator.Branch.offset, discriminator.Branch.value_type.size)?
discriminator is Branch & decode(Int(discriminator.Branch.value_type), apply:accessor.Ok.0) is Some & not decode(Int(discriminator.Branch.value_type), apply:accessor.Ok.0).Some.0 is Int => Ok(None) ; apply:accessor(accessor, discriminator.Branch.offset, discriminator.Branch.value_type.size)?
discriminator is Branch & decode(Int(discriminator.Branch.value_type), apply:accessor.Ok.0) is Some & decode(Int(discriminator.Branch.value_type), apply:accessor.Ok.0).Some.0 is Int & forall discriminator.Branch.children: !(!((-1*each(discriminator.Branch.children).0.0 + decode(Int(discriminator.Branch.value_type), apply:accessor.Ok.0).Some.0.Int.0) >= 0)) && !((-1*decode(Int(discriminator.Branch.value_type), apply:accessor.Ok.0).Some.0.Int.0 + each(discriminator.Branch.children).0.1 + -1) >= 0) || !((-1*each(discriminator.Branch.children).0.0 + decode(Int(discriminator.Branch.value_type), apply:accessor.Ok.0).Some.0.Int.0) >= 0) => decode_discriminant(apply:accessor', discriminator.Branch.fallback) ; apply:accessor(accessor, discriminator.Branch.offset, discriminator.Branch.value_type.size)? ; for all discriminator.Branch.children: !(!((-1*each(discriminator.Branch.children).0.0 + decode(Int(discriminator.Branch.value_type), apply:accessor.Ok.0).Some.0.Int.0) >= 0)) && !((-1*decode(Int(discriminator.Branch.value_type), apply:accessor.Ok.0).Some.0.Int.0 + each(discriminator.Branch.children).0.1 + -1) >= 0) || !((-1*each(discriminator.Branch.children).0.0 + decode(Int(discriminator.Branch.value_type), apply:accessor.Ok.0).Some.0.Int.0) >= 0)
discriminator is Branch & decode(Int(discriminator.Branch.value_type), apply:accessor.Ok.0) is Some & decode(Int(discriminator.Branch.value_type), apply:accessor.Ok.0).Some.0 is Int & (-1*each(discriminator.Branch.children).0.0 + decode(Int(discriminator.Branch.value_type), apply:accessor.Ok.0).Some.0.Int.0) >= 0 & (-1*decode(Int(discriminator.Branch.value_type), apply:accessor.Ok.0).Some.0.Int.0 + each(discriminator.Branch.children).0.1 + -1) >= 0 => decode_discriminant(apply:accessor', each(discriminator.Branch.children).1) ; apply:accessor(accessor, discriminator.Branch.offset, discriminator.Branch.value_type.size)?
discriminator is Invalid => Ok(None)
discriminator is Known => Ok(Some(discriminator.Known.0))
## encode_discriminant(accessor, tagger)
always => Ok(()) ; for all tagger: apply:mref((1,1), ())(accessor, each(tagger).0, encode(Int(each(tagger).1.0), Int(each(tagger).1.1))) is Ok
## Machine::typed_store(self, ptr, val, ty, align, atomicity)
always => Ok(()) ; self := self{.mem := store'} ; store(self.mem, ptr, encode(ty, val), align, atomicity)? ; check_value(self, val, ty)?
## Machine::typed_load(self, ptr, ty, align, atomicity)
layout(ty) is Sized & decode(ty, load.Ok.0) is Some => Ok(decode(ty, load.Ok.0).Some.0) ; self := self{.mem := load'} ; load(self.mem, ptr, layout(ty).Sized.0, align, atomicity)? ; check_value(self{.mem := load'}, decode(ty, load.Ok.0).Some.0, ty)?
layout(ty) is Sized & decode(ty, load.Ok.0) is None => Err(Ub("load at type {new_debug(ty)} but the data in memory violates the language invariant"))
## Machine::transmute(self, val, type1, type2)
layout(type1) is Sized & layout(type2) is Sized & layout(type1).Sized.0 == layout(type2).Sized.0 & decode(type2, encode(type1, val)) is None => Err(Ub("transmuted value is not valid at new type"))
layout(type1) is Sized & layout(type2) is Sized & layout(type1).Sized.0 == layout(type2).Sized.0 & decode(type2, encode(type1, val)) is Some => Ok(decode(type2, encode(type1, val)).Some.0) ; check_value(self, decode(type2, encode(type1, val)).Some.0, type2)?
"""


def check(c):
    n = sp.book(c, T)
    c.floor("functions", n, 10)
