"""P23: well-formedness of types and layouts."""
import sp, tool

META = dict(rule="Decision table of the specification, one step at a time: for each case of one kind of type, the result, what it leaves in every mutable argument, and the other steps it takes, in order; on every path.")
T = r"""
## Type::check_wf(self, prog)
self is TraitObject & get(prog.traits, self.TraitObject.0) is None => Err(IllFormed("Type::TraitObject: trait name doesn't exist"))
self is TraitObject & get(prog.traits, self.TraitObject.0) is Some & meta_kind(layout(self)) == meta_kind(self) => Ok(()) ; check_wf(layout(self), prog)? ; check_aligned(layout(self))?
self is Enum & meta_kind(layout(self)) == meta_kind(self) & forall self.Enum.variants: !(!((-1*layout(each(self.Enum.variants).1.ty).Sized.1 + self.Enum.align) >= 0)) && [forall each(self.Enum.variants).1.tagger: !(!((-1*each(each(self.Enum.variants).1.tagger).0 + -1*each(each(self.Enum.variants).1.tagger).1.0.size + self.Enum.size) >= 0)) && can_represent(each(each(self.Enum.variants).1.tagger).1.0, each(each(self.Enum.variants).1.tagger).1.1) && check_wf(each(each(self.Enum.variants).1.tagger).1.0) is Ok] && can_represent(self.Enum.discriminant_ty, each(self.Enum.variants).0) && check_wf(each(self.Enum.variants).1.ty, prog) is Ok && layout(each(self.Enum.variants).1.ty) is Sized && layout(each(self.Enum.variants).1.ty).Sized.0 == self.Enum.size => Ok(()) ; check_wf(self.Enum.discriminator, self.Enum.size, self.Enum.variants)? ; check_wf(layout(self), prog)? ; check_aligned(layout(self))? ; for all self.Enum.variants: !(!((-1*layout(each(self.Enum.variants).1.ty).Sized.1 + self.Enum.align) >= 0)) && [forall each(self.Enum.variants).1.tagger: !(!((-1*each(each(self.Enum.variants).1.tagger).0 + -1*each(each(self.Enum.variants).1.tagger).1.0.size + self.Enum.size) >= 0)) && can_represent(each(each(self.Enum.variants).1.tagger).1.0, each(each(self.Enum.variants).1.tagger).1.1) && check_wf(each(each(self.Enum.variants).1.tagger).1.0) is Ok] && can_represent(self.Enum.discriminant_ty, each(self.Enum.variants).0) && check_wf(each(self.Enum.variants).1.ty, prog) is Ok && layout(each(self.Enum.variants).1.ty) is Sized && layout(each(self.Enum.variants).1.ty).Sized.0 == self.Enum.size
self is Enum & can_represent(self.Enum.discriminant_ty, each(self.Enum.variants).0) & layout(each(self.Enum.variants).1.ty) is Sized & layout(each(self.Enum.variants).1.ty).Sized.0 == self.Enum.size & (-1*layout(each(self.Enum.variants).1.ty).Sized.1 + self.Enum.align) >= 0 & not can_represent(each(each(self.Enum.variants).1.tagger).1.0, each(each(self.Enum.variants).1.tagger).1.1) => Err(IllFormed("Type::Enum: invalid tagger value"))
self is Enum & can_represent(self.Enum.discriminant_ty, each(self.Enum.variants).0) & layout(each(self.Enum.variants).1.ty) is Sized & layout(each(self.Enum.variants).1.ty).Sized.0 == self.Enum.size & (-1*layout(each(self.Enum.variants).1.ty).Sized.1 + self.Enum.align) >= 0 & can_represent(each(each(self.Enum.variants).1.tagger).1.0, each(each(self.Enum.variants).1.tagger).1.1) & not (-1*each(each(self.Enum.variants).1.tagger).0 + -1*each(each(self.Enum.variants).1.tagger).1.0.size + self.Enum.size) >= 0 => Err(IllFormed("Type::Enum tagger type size too big for enum"))
self is Enum & can_represent(self.Enum.discriminant_ty, each(self.Enum.variants).0) & layout(each(self.Enum.variants).1.ty) is Sized & layout(each(self.Enum.variants).1.ty).Sized.0 == self.Enum.size & not (-1*layout(each(self.Enum.variants).1.ty).Sized.1 + self.Enum.align) >= 0 => Err(IllFormed("Type::Enum: invalid align requirement"))
self is Enum & can_represent(self.Enum.discriminant_ty, each(self.Enum.variants).0) & layout(each(self.Enum.variants).1.ty) is Sized & not layout(each(self.Enum.variants).1.ty).Sized.0 == self.Enum.size => Err(IllFormed("Type::Enum: variant size is not the same as enum size"))
self is Enum & can_represent(self.Enum.discriminant_ty, each(self.Enum.variants).0) & not layout(each(self.Enum.variants).1.ty) is Sized => Err(IllFormed("Type::Enum: variant type is unsized"))
self is Enum & not can_represent(self.Enum.discriminant_ty, each(self.Enum.variants).0) => Err(IllFormed("Type::Enum: invalid value for discriminant"))
self is Union & not (-1*loop + self.Union.size) >= 0 & forall self.Union.fields: !(!((-1*each(self.Union.fields).0 + -1*layout(each(self.Union.fields).1).Sized.0 + self.Union.size) >= 0)) && check_wf(each(self.Union.fields).1, prog) is Ok && layout(each(self.Union.fields).1) is Sized & forall self.Union.chunks: !(!((-1*~0 + each(self.Union.chunks).0) >= 0)) => Err(IllFormed("Type::Union: chunks do not fit union"))
self is Union & (-1*loop + self.Union.size) >= 0 & meta_kind(layout(self)) == meta_kind(self) & forall self.Union.fields: !(!((-1*each(self.Union.fields).0 + -1*layout(each(self.Union.fields).1).Sized.0 + self.Union.size) >= 0)) && check_wf(each(self.Union.fields).1, prog) is Ok && layout(each(self.Union.fields).1) is Sized & forall self.Union.chunks: !(!((-1*~0 + each(self.Union.chunks).0) >= 0)) => Ok(()) ; loop = fold(self.Union.chunks, (0), each(self.Union.chunks), ((each(self.Union.chunks).0 + each(self.Union.chunks).1))) ; check_wf(layout(self), prog)? ; check_aligned(layout(self))? ; for all self.Union.fields: !(!((-1*each(self.Union.fields).0 + -1*layout(each(self.Union.fields).1).Sized.0 + self.Union.size) >= 0)) && check_wf(each(self.Union.fields).1, prog) is Ok && layout(each(self.Union.fields).1) is Sized ; for all self.Union.chunks: !(!((-1*~0 + each(self.Union.chunks).0) >= 0))
self is Union & not (-1*~0 + each(self.Union.chunks).0) >= 0 & forall self.Union.fields: !(!((-1*each(self.Union.fields).0 + -1*layout(each(self.Union.fields).1).Sized.0 + self.Union.size) >= 0)) && check_wf(each(self.Union.fields).1, prog) is Ok && layout(each(self.Union.fields).1) is Sized => Err(IllFormed("Type::Union: chunks are not stored in ascending order"))
self is Union & not layout(each(self.Union.fields).1) is Sized => Err(IllFormed("Type::Union: unsized field type"))
self is Union & layout(each(self.Union.fields).1) is Sized & not (-1*each(self.Union.fields).0 + -1*layout(each(self.Union.fields).1).Sized.0 + self.Union.size) >= 0 => Err(IllFormed("Type::Union: field size does not fit union"))
self is Slice & layout(self.Slice.elem) is Sized & meta_kind(layout(self)) == meta_kind(self) => Ok(()) ; check_wf(self.Slice.elem, prog)? ; check_wf(layout(self), prog)? ; check_aligned(layout(self))?
self is Slice & not layout(self.Slice.elem) is Sized => Err(IllFormed("Type::Slice: unsized element type"))
self is Array & not self.Array.count >= 0 => Err(IllFormed("Type::Array: negative amount of elements"))
self is Array & self.Array.count >= 0 & layout(self.Array.elem) is Sized & meta_kind(layout(self)) == meta_kind(self) => Ok(()) ; check_wf(self.Array.elem, prog)? ; check_wf(layout(self), prog)? ; check_aligned(layout(self))?
self is Array & self.Array.count >= 0 & not layout(self.Array.elem) is Sized => Err(IllFormed("Type::Array: unsized element type"))
self is Tuple & self.Tuple.unsized_field is None & not (-1*loop + self.Tuple.sized_head_layout.end) >= 0 & forall sorted(self.Tuple.sized_fields by each(self.Tuple.sized_fields).0): !(!((-1*~0 + each(self.Tuple.sized_fields).0) >= 0)) && check_wf(each(self.Tuple.sized_fields).1, prog) is Ok && layout(each(self.Tuple.sized_fields).1) is Sized => Err(IllFormed("Type::Tuple: size of fields is bigger than the end of the sized head"))
self is Tuple & self.Tuple.unsized_field is None & (-1*loop + self.Tuple.sized_head_layout.end) >= 0 & self.Tuple.sized_head_layout.packed_align is Some & forall sorted(self.Tuple.sized_fields by each(self.Tuple.sized_fields).0): !(!((-1*~0 + each(self.Tuple.sized_fields).0) >= 0)) && check_wf(each(self.Tuple.sized_fields).1, prog) is Ok && layout(each(self.Tuple.sized_fields).1) is Sized => Err(IllFormed("Type::Tuple: meaningless packed align for sized tuple"))
self is Tuple & self.Tuple.unsized_field is None & (-1*loop + self.Tuple.sized_head_layout.end) >= 0 & self.Tuple.sized_head_layout.packed_align is None & meta_kind(layout(self)) == meta_kind(self) & forall sorted(self.Tuple.sized_fields by each(self.Tuple.sized_fields).0): !(!((-1*~0 + each(self.Tuple.sized_fields).0) >= 0)) && check_wf(each(self.Tuple.sized_fields).1, prog) is Ok && layout(each(self.Tuple.sized_fields).1) is Sized => Ok(()) ; loop = fold(sorted(self.Tuple.sized_fields by each(self.Tuple.sized_fields).0), (0), each(self.Tuple.sized_fields), ((each(self.Tuple.sized_fields).0 + layout(each(self.Tuple.sized_fields).1).Sized.0))) ; check_wf(self.Tuple.sized_head_layout)? ; check_wf(layout(self), prog)? ; check_aligned(layout(self))? ; for all sorted(self.Tuple.sized_fields by each(self.Tuple.sized_fields).0): !(!((-1*~0 + each(self.Tuple.sized_fields).0) >= 0)) && check_wf(each(self.Tuple.sized_fields).1, prog) is Ok && layout(each(self.Tuple.sized_fields).1) is Sized
self is Tuple & self.Tuple.unsized_field is Some & layout(self.Tuple.unsized_field.Some.0) is Sized & forall sorted(self.Tuple.sized_fields by each(self.Tuple.sized_fields).0): !(!((-1*~0 + each(self.Tuple.sized_fields).0) >= 0)) && check_wf(each(self.Tuple.sized_fields).1, prog) is Ok && layout(each(self.Tuple.sized_fields).1) is Sized => Err(IllFormed("Type::Tuple: sized unsized field type"))
self is Tuple & self.Tuple.unsized_field is Some & not layout(self.Tuple.unsized_field.Some.0) is Sized & not (-1*loop + self.Tuple.sized_head_layout.end) >= 0 & forall sorted(self.Tuple.sized_fields by each(self.Tuple.sized_fields).0): !(!((-1*~0 + each(self.Tuple.sized_fields).0) >= 0)) && check_wf(each(self.Tuple.sized_fields).1, prog) is Ok && layout(each(self.Tuple.sized_fields).1) is Sized => Err(IllFormed("Type::Tuple: size of fields is bigger than the end of the sized head"))
self is Tuple & self.Tuple.unsized_field is Some & not layout(self.Tuple.unsized_field.Some.0) is Sized & (-1*loop + self.Tuple.sized_head_layout.end) >= 0 & self.Tuple.sized_head_layout.packed_align is Some & meta_kind(layout(self)) == meta_kind(self) & forall sorted(self.Tuple.sized_fields by each(self.Tuple.sized_fields).0): !(!((-1*~0 + each(self.Tuple.sized_fields).0) >= 0)) && check_wf(each(self.Tuple.sized_fields).1, prog) is Ok && layout(each(self.Tuple.sized_fields).1) is Sized => Ok(()) ; loop = fold(sorted(self.Tuple.sized_fields by each(self.Tuple.sized_fields).0), (0), each(self.Tuple.sized_fields), ((each(self.Tuple.sized_fields).0 + layout(each(self.Tuple.sized_fields).1).Sized.0))) ; check_wf(self.Tuple.unsized_field.Some.0, prog)? ; check_wf(self.Tuple.sized_head_layout)? ; check_wf(layout(self), prog)? ; check_aligned(layout(self))? ; for all sorted(self.Tuple.sized_fields by each(self.Tuple.sized_fields).0): !(!((-1*~0 + each(self.Tuple.sized_fields).0) >= 0)) && check_wf(each(self.Tuple.sized_fields).1, prog) is Ok && layout(each(self.Tuple.sized_fields).1) is Sized
self is Tuple & self.Tuple.unsized_field is Some & not layout(self.Tuple.unsized_field.Some.0) is Sized & (-1*loop + self.Tuple.sized_head_layout.end) >= 0 & self.Tuple.sized_head_layout.packed_align is None & meta_kind(layout(self)) == meta_kind(self) & forall sorted(self.Tuple.sized_fields by each(self.Tuple.sized_fields).0): !(!((-1*~0 + each(self.Tuple.sized_fields).0) >= 0)) && check_wf(each(self.Tuple.sized_fields).1, prog) is Ok && layout(each(self.Tuple.sized_fields).1) is Sized => Ok(()) ; loop = fold(sorted(self.Tuple.sized_fields by each(self.Tuple.sized_fields).0), (0), each(self.Tuple.sized_fields), ((each(self.Tuple.sized_fields).0 + layout(each(self.Tuple.sized_fields).1).Sized.0))) ; check_wf(self.Tuple.unsized_field.Some.0, prog)? ; check_wf(self.Tuple.sized_head_layout)? ; check_wf(layout(self), prog)? ; check_aligned(layout(self))? ; for all sorted(self.Tuple.sized_fields by each(self.Tuple.sized_fields).0): !(!((-1*~0 + each(self.Tuple.sized_fields).0) >= 0)) && check_wf(each(self.Tuple.sized_fields).1, prog) is Ok && layout(each(self.Tuple.sized_fields).1) is Sized
self is Tuple & (-1*~0 + each(self.Tuple.sized_fields).0) >= 0 & not layout(each(self.Tuple.sized_fields).1) is Sized => Err(IllFormed("Type::Tuple: unsized field type in head"))
self is Tuple & not (-1*~0 + each(self.Tuple.sized_fields).0) >= 0 => Err(IllFormed("Type::Tuple: overlapping fields"))
self is Ptr & meta_kind(layout(self)) == meta_kind(self) => Ok(()) ; check_wf(self.Ptr.0, prog)? ; check_wf(layout(self), prog)? ; check_aligned(layout(self))?
self is Bool & meta_kind(layout(self)) == meta_kind(self) => Ok(()) ; check_wf(layout(self), prog)? ; check_aligned(layout(self))?
self is Int & meta_kind(layout(self)) == meta_kind(self) => Ok(()) ; check_wf(self.Int.0)? ; check_wf(layout(self), prog)? ; check_aligned(layout(self))?
## PtrType::check_wf(self, prog)
self is VTablePtr & get(prog.traits, self.VTablePtr.0) is None => Err(IllFormed("PtrType::VTablePtr: trait name doesn't exist"))
self is VTablePtr & get(prog.traits, self.VTablePtr.0) is Some => Ok(())
self is FnPtr => Ok(())
self is Raw => Ok(())
self is Box => Ok(()) ; check_wf(self.Box.pointee, prog)?
self is Ref => Ok(()) ; check_wf(self.Ref.pointee, prog)?
## PointeeInfo::check_wf(self, prog)
always => Ok(()) ; check_wf(self.layout, prog)? ; check_wf(self.unsafe_cells, self.layout)?
## LayoutStrategy::check_wf(self, prog)
self is Tuple & self.Tuple.tail is Sized => Err(IllFormed("LayoutStrategy: tuple with sized tail"))
self is Tuple & not self.Tuple.tail is Sized => Ok(()) ; check_wf(self.Tuple.head)? ; check_wf(self.Tuple.tail, prog)?
self is TraitObject & get(prog.traits, self.TraitObject.0) is None => Err(IllFormed("LayoutStrategy: trait name doesn't exist"))
self is TraitObject & get(prog.traits, self.TraitObject.0) is Some => Ok(())
self is Slice & not valid_size(self.Slice.0) => Err(IllFormed("LayoutStrategy: element size not valid"))
self is Slice & valid_size(self.Slice.0) => Ok(())
self is Sized & not valid_size(self.Sized.0) => Err(IllFormed("LayoutStrategy: size not valid"))
self is Sized & valid_size(self.Sized.0) => Ok(())
## TupleHeadLayout::check_wf(self)
not valid_size(self.end) => Err(IllFormed("TupleHeadLayout: end not valid"))
valid_size(self.end) & self.packed_align is None => Ok(())
valid_size(self.end) & self.packed_align is Some & not (-1*self.align + self.packed_align.Some.0) >= 0 => Err(IllFormed("TupleHeadLayout: align bigger than packed attribute"))
valid_size(self.end) & self.packed_align is Some & (-1*self.align + self.packed_align.Some.0) >= 0 => Ok(())
## UnsafeCellStrategy::check_wf(self, layout)
self is Tuple & not layout is Tuple => Err(IllFormed("UnsafeCellStrategy and LayoutStrategy variants do not match"))
self is Tuple & layout is Tuple => Ok(()) ; check_cells(self.Tuple.head_cells, layout.Tuple.head.end)? ; check_wf(self.Tuple.tail_cells, layout.Tuple.tail)?
self is TraitObject & not layout is TraitObject => Err(IllFormed("UnsafeCellStrategy and LayoutStrategy variants do not match"))
self is TraitObject & layout is TraitObject => Ok(())
self is Slice & not layout is Slice => Err(IllFormed("UnsafeCellStrategy and LayoutStrategy variants do not match"))
self is Slice & layout is Slice => Ok(()) ; check_cells(self.Slice.element_cells, layout.Slice.0)?
self is Sized & not layout is Sized => Err(IllFormed("UnsafeCellStrategy and LayoutStrategy variants do not match"))
self is Sized & layout is Sized => Ok(()) ; check_cells(self.Sized.cells, layout.Sized.0)?
## Discriminator::check_wf(self, size, variants)
self is Branch & not (-1*self.Branch.offset + -1*self.Branch.value_type.size + size) >= 0 => Err(IllFormed("Discriminator: branch offset exceeds size"))
self is Branch & (-1*self.Branch.offset + -1*self.Branch.value_type.size + size) >= 0 & forall self.Branch.children: !(!((-1*each(self.Branch.children).0.0 + each(self.Branch.children).0.1 + -1) >= 0)) && !(!((-1*pos(self.Branch.children, 0) + len(self.Branch.children) + -1) >= 0)) && !(!(pos(self.Branch.children, 0) >= 0)) && [forall self.Branch.children: !(!((-1*pos(mapproj(self.Branch.children, 0), 0) + len(mapproj(self.Branch.children, 0)) + -1) >= 0)) && !(!(pos(mapproj(self.Branch.children, 0), 0) >= 0)) && pos(mapproj(self.Branch.children, 0), 0) == pos(self.Branch.children, 0)] && can_represent(self.Branch.value_type, (each(self.Branch.children).0.1 + -1)) && can_represent(self.Branch.value_type, each(self.Branch.children).0.0) && check_wf(each(self.Branch.children).1, size, variants) is Ok => Ok(()) ; check_wf(self.Branch.value_type)? ; check_wf(self.Branch.fallback, size, variants)? ; for all self.Branch.children: !(!((-1*each(self.Branch.children).0.0 + each(self.Branch.children).0.1 + -1) >= 0)) && !(!((-1*pos(self.Branch.children, 0) + len(self.Branch.children) + -1) >= 0)) && !(!(pos(self.Branch.children, 0) >= 0)) && [forall self.Branch.children: !(!((-1*pos(mapproj(self.Branch.children, 0), 0) + len(mapproj(self.Branch.children, 0)) + -1) >= 0)) && !(!(pos(mapproj(self.Branch.children, 0), 0) >= 0)) && pos(mapproj(self.Branch.children, 0), 0) == pos(self.Branch.children, 0)] && can_represent(self.Branch.value_type, (each(self.Branch.children).0.1 + -1)) && can_represent(self.Branch.value_type, each(self.Branch.children).0.0) && check_wf(each(self.Branch.children).1, size, variants) is Ok
self is Branch & (-1*self.Branch.offset + -1*self.Branch.value_type.size + size) >= 0 & pos(self.Branch.children, 0) >= 0 & (-1*pos(self.Branch.children, 0) + len(self.Branch.children) + -1) >= 0 & can_represent(self.Branch.value_type, each(self.Branch.children).0.0) & can_represent(self.Branch.value_type, (each(self.Branch.children).0.1 + -1)) & (-1*each(self.Branch.children).0.0 + each(self.Branch.children).0.1 + -1) >= 0 & pos(mapproj(self.Branch.children, 0), 0) >= 0 & (-1*pos(mapproj(self.Branch.children, 0), 0) + len(mapproj(self.Branch.children, 0)) + -1) >= 0 & not pos(mapproj(self.Branch.children, 0), 0) == pos(self.Branch.children, 0) => Err(IllFormed("Discriminator: branch ranges overlap"))
self is Branch & (-1*self.Branch.offset + -1*self.Branch.value_type.size + size) >= 0 & pos(self.Branch.children, 0) >= 0 & (-1*pos(self.Branch.children, 0) + len(self.Branch.children) + -1) >= 0 & can_represent(self.Branch.value_type, each(self.Branch.children).0.0) & can_represent(self.Branch.value_type, (each(self.Branch.children).0.1 + -1)) & not (-1*each(self.Branch.children).0.0 + each(self.Branch.children).0.1 + -1) >= 0 => Err(IllFormed("Discriminator: invalid bound values"))
self is Branch & (-1*self.Branch.offset + -1*self.Branch.value_type.size + size) >= 0 & pos(self.Branch.children, 0) >= 0 & (-1*pos(self.Branch.children, 0) + len(self.Branch.children) + -1) >= 0 & can_represent(self.Branch.value_type, each(self.Branch.children).0.0) & not can_represent(self.Branch.value_type, (each(self.Branch.children).0.1 + -1)) => Err(IllFormed("Discriminator: invalid branch end bound"))
self is Branch & (-1*self.Branch.offset + -1*self.Branch.value_type.size + size) >= 0 & pos(self.Branch.children, 0) >= 0 & (-1*pos(self.Branch.children, 0) + len(self.Branch.children) + -1) >= 0 & not can_represent(self.Branch.value_type, each(self.Branch.children).0.0) => Err(IllFormed("Discriminator: invalid branch start bound"))
self is Invalid => Ok(())
self is Known & get(variants, self.Known.0) is None => Err(IllFormed("Discriminator: invalid discriminant"))
self is Known & get(variants, self.Known.0) is Some => Ok(())
## IntType::check_wf(self)
not is_power_of_two(self.size) => Err(IllFormed("IntType: size is not power of two"))
is_power_of_two(self.size) => Ok(())
"""


def check(c):
    n = sp.book(c, T)
    c.floor("functions", n, 8)
