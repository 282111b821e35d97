"""P14: which values are valid at a type and which pointers are acceptable."""
import sp, tool

META = dict(rule="Decision table of the specification, one step at a time: for each case of one validity check, the result, what it leaves in every mutable argument, and the other steps it takes, in order; on every path.")
T = r"""
## Machine::check_value(self, value, ty)
value is Union & ty is Union & not len(ty.Union.chunks) == len(value.Union.0) => Err(Ub("Value::Union: invalid chunk size"))
value is Union & ty is Union & len(ty.Union.chunks) == len(value.Union.0) & forall zip(value.Union.0, ty.Union.chunks): each(ty.Union.chunks).1 == len(each(value.Union.0)) => Ok(()) ; for all zip(value.Union.0, ty.Union.chunks): each(ty.Union.chunks).1 == len(each(value.Union.0))
value is Union & ty is Union & len(ty.Union.chunks) == len(value.Union.0) & not each(ty.Union.chunks).1 == len(each(value.Union.0)) => Err(Ub("Value::Union: invalid chunk data"))
value is Variant & ty is Enum & get(ty.Enum.variants, value.Variant.discriminant) is None => Err(Ub("Value::Variant: invalid discrimant"))
value is Variant & ty is Enum & get(ty.Enum.variants, value.Variant.discriminant) is Some => Ok(()) ; check_value(self, value.Variant.data, get(ty.Enum.variants, value.Variant.discriminant).Some.0.ty)?
value is Tuple & ty is Array & not len(value.Tuple.0) == ty.Array.count => Err(Ub("Value::Tuple: invalid number of elements"))
value is Tuple & ty is Array & len(value.Tuple.0) == ty.Array.count => Ok(()) ; for all value.Tuple.0: check_value(self, each(value.Tuple.0), ty.Array.elem) is Ok
value is Tuple & ty is Tuple & ty.Tuple.unsized_field is None & not len(ty.Tuple.sized_fields) == len(value.Tuple.0) => Err(Ub("Value::Tuple: invalid number of fields"))
value is Tuple & ty is Tuple & ty.Tuple.unsized_field is None & len(ty.Tuple.sized_fields) == len(value.Tuple.0) => Ok(()) ; for all zip(value.Tuple.0, ty.Tuple.sized_fields): check_value(self, each(value.Tuple.0), each(ty.Tuple.sized_fields).1) is Ok
value is Ptr & ty is Ptr => Ok(()) ; check_ptr(self, value.Ptr.0, ty.Ptr.0)?
value is Bool & ty is Bool => Ok(())
value is Int & ty is Int & not can_represent(ty.Int.0, value.Int.0) => Err(Ub("Value::Int: invalid integer value"))
value is Int & ty is Int & can_represent(ty.Int.0, value.Int.0) => Ok(())
## Machine::check_ptr(self, ptr, ptr_ty)
not in_bounds(ptr.thin_pointer.addr, Unsigned, Target::PTR_SIZE) => Err(Ub("Value::Ptr: pointer out-of-bounds"))
in_bounds(ptr.thin_pointer.addr, Unsigned, Target::PTR_SIZE) & safe_pointee(ptr_ty) is None & not ptr_ty is VTablePtr => Ok(()) ; check_ptr_metadata(self, ptr.metadata, meta_kind(ptr_ty))?
in_bounds(ptr.thin_pointer.addr, Unsigned, Target::PTR_SIZE) & safe_pointee(ptr_ty) is None & ptr_ty is VTablePtr & not ptr_ty.VTablePtr.0 == vtable_from_ptr(self, ptr.thin_pointer).Ok.0.trait_name => Err(Ub("Value::Ptr: invalid vtable in metadata"))
in_bounds(ptr.thin_pointer.addr, Unsigned, Target::PTR_SIZE) & safe_pointee(ptr_ty) is None & ptr_ty is VTablePtr & ptr_ty.VTablePtr.0 == vtable_from_ptr(self, ptr.thin_pointer).Ok.0.trait_name => Ok(()) ; check_ptr_metadata(self, ptr.metadata, meta_kind(ptr_ty))? ; vtable_from_ptr(self, ptr.thin_pointer)?
in_bounds(ptr.thin_pointer.addr, Unsigned, Target::PTR_SIZE) & safe_pointee(ptr_ty) is Some & not in_bounds(compute_size(self, safe_pointee(ptr_ty).Some.0.layout, ptr.metadata), Signed, Target::PTR_SIZE) => Err(Ub("Value::Ptr: total size exeeds isize::MAX"))
in_bounds(ptr.thin_pointer.addr, Unsigned, Target::PTR_SIZE) & safe_pointee(ptr_ty) is Some & in_bounds(compute_size(self, safe_pointee(ptr_ty).Some.0.layout, ptr.metadata), Signed, Target::PTR_SIZE) & ptr.thin_pointer.addr == 0 => Err(Ub("Value::Ptr: null safe pointer"))
in_bounds(ptr.thin_pointer.addr, Unsigned, Target::PTR_SIZE) & safe_pointee(ptr_ty) is Some & in_bounds(compute_size(self, safe_pointee(ptr_ty).Some.0.layout, ptr.metadata), Signed, Target::PTR_SIZE) & not ptr.thin_pointer.addr == 0 & not rem(ptr.thin_pointer.addr, compute_align(self, safe_pointee(ptr_ty).Some.0.layout, ptr.metadata)) == 0 => Err(Ub("Value::Ptr: unaligned safe pointer"))
in_bounds(ptr.thin_pointer.addr, Unsigned, Target::PTR_SIZE) & safe_pointee(ptr_ty) is Some & in_bounds(compute_size(self, safe_pointee(ptr_ty).Some.0.layout, ptr.metadata), Signed, Target::PTR_SIZE) & not ptr.thin_pointer.addr == 0 & rem(ptr.thin_pointer.addr, compute_align(self, safe_pointee(ptr_ty).Some.0.layout, ptr.metadata)) == 0 & not safe_pointee(ptr_ty).Some.0.inhabited => Err(Ub("Value::Ptr: safe pointer to uninhabited type"))
in_bounds(ptr.thin_pointer.addr, Unsigned, Target::PTR_SIZE) & safe_pointee(ptr_ty) is Some & in_bounds(compute_size(self, safe_pointee(ptr_ty).Some.0.layout, ptr.metadata), Signed, Target::PTR_SIZE) & not ptr.thin_pointer.addr == 0 & rem(ptr.thin_pointer.addr, compute_align(self, safe_pointee(ptr_ty).Some.0.layout, ptr.metadata)) == 0 & safe_pointee(ptr_ty).Some.0.inhabited & dereferenceable(self.mem, ptr.thin_pointer, compute_size(self, safe_pointee(ptr_ty).Some.0.layout, ptr.metadata)) is Err => Err(Ub("Value::Ptr: non-dereferenceable safe pointer"))
in_bounds(ptr.thin_pointer.addr, Unsigned, Target::PTR_SIZE) & safe_pointee(ptr_ty) is Some & in_bounds(compute_size(self, safe_pointee(ptr_ty).Some.0.layout, ptr.metadata), Signed, Target::PTR_SIZE) & not ptr.thin_pointer.addr == 0 & rem(ptr.thin_pointer.addr, compute_align(self, safe_pointee(ptr_ty).Some.0.layout, ptr.metadata)) == 0 & safe_pointee(ptr_ty).Some.0.inhabited & dereferenceable(self.mem, ptr.thin_pointer, compute_size(self, safe_pointee(ptr_ty).Some.0.layout, ptr.metadata)) is Ok => Ok(()) ; check_ptr_metadata(self, ptr.metadata, meta_kind(ptr_ty))? ; dereferenceable(self.mem, ptr.thin_pointer, compute_size(self, safe_pointee(ptr_ty).Some.0.layout, ptr.metadata))?
## Machine::check_ptr_metadata(self, meta, kind)
meta is Some & kind is None => Err(Ub("Value::Ptr: invalid metadata"))
meta is Some & kind is VTablePointer & meta.Some.0 is ElementCount => Err(Ub("Value::Ptr: invalid metadata"))
meta is Some & kind is VTablePointer & meta.Some.0 is VTablePointer => Ok(()) ; check_ptr(self, Pointer{thin_pointer: meta.Some.0.VTablePointer.0, metadata: None}, VTablePtr(kind.VTablePointer.0))?
meta is Some & kind is ElementCount & meta.Some.0 is VTablePointer => Err(Ub("Value::Ptr: invalid metadata"))
meta is Some & kind is ElementCount & meta.Some.0 is ElementCount => Ok(()) ; check_value(self, Int(meta.Some.0.ElementCount.0), Int(IntType{signed: Unsigned, size: Target::PTR_SIZE}))?
meta is None & not kind is None => Err(Ub("Value::Ptr: invalid metadata"))
meta is None & kind is None => Ok(())
## LayoutStrategy::check_aligned(self)
self is Tuple => Ok(()) ; check_aligned(self.Tuple.tail)?
self is TraitObject => Ok(())
self is Slice & not rem(self.Slice.0, self.Slice.1) == 0 => Err(IllFormed("check_aligned: element size not a multiple of alignment"))
self is Slice & rem(self.Slice.0, self.Slice.1) == 0 => Ok(())
self is Sized & not rem(self.Sized.0, self.Sized.1) == 0 => Err(IllFormed("check_aligned: size not a multiple of alignment"))
self is Sized & rem(self.Sized.0, self.Sized.1) == 0 => Ok(())
## UnsafeCellStrategy::check_cells(cells, size)
not (-1*loop + size) >= 0 => Err(IllFormed("LayoutStrategy: invalid cells"))
(-1*loop + size) >= 0 & forall cells: !(!((-1*~0 + each(cells).0) >= 0)) => Ok(()) ; loop = fold(cells, (0), each(cells), ((each(cells).0 + each(cells).1))) ; for all cells: !(!((-1*~0 + each(cells).0) >= 0))
not (-1*~0 + each(cells).0) >= 0 => Err(IllFormed("LayoutStrategy: invalid cells"))
"""


def check(c):
    n = sp.book(c, T)
    c.floor("functions", n, 5)
