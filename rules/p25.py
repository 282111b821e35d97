"""P25: sizes, alignments, layouts and pointer metadata of types."""
import sp, tool

META = dict(rule="Decision table of the specification, one step at a time: for each case of one layout computation, the result, what it leaves in every mutable argument, and the other steps it takes, in order; on every path.")
T = r"""
## Type::layout(self)
self is TraitObject => TraitObject(self.TraitObject.0)
self is Enum => Sized(self.Enum.size, self.Enum.align)
self is Union => Sized(self.Union.size, self.Union.align)
self is Slice & layout(self.Slice.elem) is Sized => Slice(layout(self.Slice.elem).Sized.0, layout(self.Slice.elem).Sized.1)
self is Array & layout(self.Array.elem) is Sized => Sized(layout(self.Array.elem).Sized.0 * self.Array.count, layout(self.Array.elem).Sized.1)
self is Tuple & self.Tuple.unsized_field is Some => Tuple{head: self.Tuple.sized_head_layout, tail: layout(self.Tuple.unsized_field.Some.0)}
self is Tuple & self.Tuple.unsized_field is None => Sized(head_size_and_align(self.Tuple.sized_head_layout).0, head_size_and_align(self.Tuple.sized_head_layout).1)
self is Ptr & meta_kind(self.Ptr.0) is None => Sized(Target::PTR_SIZE, Target::PTR_ALIGN)
self is Ptr & meta_kind(self.Ptr.0) is Some => Sized((2*Target::PTR_SIZE), Target::PTR_ALIGN)
self is Bool => Sized(1, 1)
self is Int => Sized(self.Int.0.size, align(self.Int.0))
## Type::meta_kind(self)
not self is Tuple & not self is Slice & not self is TraitObject => None
self is TraitObject => VTablePointer(self.TraitObject.0)
self is Slice => ElementCount
self is Tuple & self.Tuple.unsized_field is Some => meta_kind(self.Tuple.unsized_field.Some.0)
self is Tuple & self.Tuple.unsized_field is None => None
## LayoutStrategy::compute_size_and_align(self, meta, vtables)
self is Tuple & meta is Some => full_size_and_align(self.Tuple.head, compute_size_and_align(self.Tuple.tail, Some(meta.Some.0), vtables).0, compute_size_and_align(self.Tuple.tail, Some(meta.Some.0), vtables).1)
self is TraitObject & meta is Some & meta.Some.0 is VTablePointer => (apply:vtables(vtables, meta.Some.0.VTablePointer.0).size, apply:vtables(vtables, meta.Some.0.VTablePointer.0).align)
self is Slice & meta is Some & meta.Some.0 is ElementCount => (meta.Some.0.ElementCount.0 * self.Slice.0, self.Slice.1)
self is Sized & meta is None => (self.Sized.0, self.Sized.1)
## LayoutStrategy::meta_kind(self)
self is Tuple => meta_kind(self.Tuple.tail)
self is TraitObject => VTablePointer(self.TraitObject.0)
self is Slice => ElementCount
self is Sized => None
## TupleHeadLayout::tail_offset(self, tail_align)
always => align_to(self.end, capped_tail_align(self, tail_align))
## TupleHeadLayout::full_size_and_align(self, tail_size, tail_align)
always => (align_to((tail_offset(self, tail_align) + tail_size), max(capped_tail_align(self, tail_align), self.align)), max(capped_tail_align(self, tail_align), self.align))
## TupleHeadLayout::head_size_and_align(self)
always => (align_to(self.end, self.align), self.align)
## TupleHeadLayout::capped_tail_align(self, tail_align)
self.packed_align is Some => min(tail_align, self.packed_align.Some.0)
self.packed_align is None => tail_align
## PtrType::meta_kind(self)
self is VTablePtr => None
self is FnPtr => None
self is Raw => self.Raw.meta_kind
self is Box => meta_kind(self.Box.pointee.layout)
self is Ref => meta_kind(self.Ref.pointee.layout)
## PtrType::safe_pointee(self)
self is VTablePtr => None
self is FnPtr => None
self is Raw => None
self is Box => Some(self.Box.pointee)
self is Ref => Some(self.Ref.pointee)
## Machine::compute_size(self, layout, meta)
always => compute_size_and_align(layout, meta, (|x0| get(self.prog.vtables, each(self.vtable_ptrs).0).Some.0)).0
## Machine::compute_align(self, layout, meta)
always => compute_size_and_align(layout, meta, (|x0| get(self.prog.vtables, each(self.vtable_ptrs).0).Some.0)).1
## IntType::align(self)
is_power_of_two(self.size) => min(self.size, Target::INT_MAX_ALIGN)
## PointerMetaKind::ty(self)
self is VTablePointer => Ptr(VTablePtr(self.VTablePointer.0))
self is ElementCount => Int(IntType{signed: Unsigned, size: Target::PTR_SIZE})
self is None => unit_type()
## PointerMetaKind::encode_as_value(self, meta)
self is VTablePointer & meta is Some & meta.Some.0 is VTablePointer => Ptr(Pointer{thin_pointer: meta.Some.0.VTablePointer.0, metadata: None})
self is ElementCount & meta is Some & meta.Some.0 is ElementCount => Int(meta.Some.0.ElementCount.0)
self is None & meta is None => Tuple([])
## PointerMetaKind::decode_value(self, value)
self is VTablePointer & value is Ptr & value.Ptr.0.metadata is None => Some(VTablePointer(value.Ptr.0.thin_pointer))
self is ElementCount & value is Int => Some(ElementCount(value.Int.0))
self is None & value is Tuple & len(value.Tuple.0) == 0 => None
## <x86_64 as Target>::PTR_SIZE()
always => 8
## <x86_64 as Target>::PTR_ALIGN()
always => 8
## <x86_64 as Target>::INT_MAX_ALIGN()
always => 16
## <x86_64 as Target>::MAX_ATOMIC_SIZE()
always => 8
## <x86_64 as Target>::ENDIANNESS()
always => LittleEndian
## <x86_64 as Target>::valid_size(size)
always => in_bounds(size, Signed, 8)
"""


def check(c):
    n = sp.book(c, T)
    c.floor("functions", n, 22)
