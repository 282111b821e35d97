"""P18: evaluation of value and place expressions."""
import sp, tool

META = dict(rule="Decision table of the specification, one step at a time: for each case of one expression, the result, what it leaves in every mutable argument, and the other steps it takes, in order; on every path.")
T = r"""
## Machine::eval_value(self, val)
val is BinOp => Ok(eval_bin_op(eval_value#2', val.BinOp.operator, eval_value.Ok.0, eval_value#2.Ok.0).Ok.0) ; self := eval_value#2' ; eval_value(self, val.BinOp.left)? ; eval_value#2(eval_value', val.BinOp.right)? ; eval_bin_op(eval_value#2', val.BinOp.operator, eval_value.Ok.0, eval_value#2.Ok.0)?
val is UnOp => Ok(eval_un_op(eval_value', val.UnOp.operator, eval_value.Ok.0).Ok.0) ; self := eval_value' ; eval_value(self, val.UnOp.operand)? ; eval_un_op(eval_value', val.UnOp.operator, eval_value.Ok.0)?
val is AddrOf & not len(eval_place'.thread.stack) == 0 => Ok((Ptr(retag_ptr.Ok.0), Ptr(val.AddrOf.ptr_ty))) ; self := eval_place'{.mem := retag_ptr'1}{.thread := eval_place'.thread{.top := eval_place'.thread.top{.extra := retag_ptr'2}}} ; eval_place(self, val.AddrOf.target)? ; retag_ptr(eval_place'.mem, eval_place'.thread.top.extra, eval_place.Ok.0.0.ptr, val.AddrOf.ptr_ty, False, (|x0| get(eval_place'.prog.vtables, each(eval_place'.vtable_ptrs).0).Some.0))? ; check_value(eval_place', Ptr(eval_place.Ok.0.0.ptr), Ptr(val.AddrOf.ptr_ty))?
val is Load => Ok((place_load.Ok.0, eval_place.Ok.0.1)) ; self := place_load' ; eval_place(self, val.Load.source)? ; place_load(eval_place', eval_place.Ok.0.0, eval_place.Ok.0.1)?
val is GetDiscriminant & eval_place.Ok.0.1 is Enum & eval_place.Ok.0.0.aligned & decode_discriminant.Ok.0 is None => Err(Ub("ValueExpr::GetDiscriminant encountered invalid discriminant."))
val is GetDiscriminant & eval_place.Ok.0.1 is Enum & eval_place.Ok.0.0.aligned & decode_discriminant.Ok.0 is Some => Ok((Int(decode_discriminant.Ok.0.Some.0), Int(eval_place.Ok.0.1.Enum.discriminant_ty))) ; self := decode_discriminant' ; eval_place(self, val.GetDiscriminant.place)? ; decode_discriminant((|x0, x1| {ptr_offset_inbounds(eval_place', eval_place.Ok.0.0.ptr.thin_pointer, x0) is Ok: (load(eval_place'.mem, ptr_offset_inbounds(eval_place', eval_place.Ok.0.0.ptr.thin_pointer, x0).Ok.0, x1, 1, None), now(eval_place'{.mem := after ConcurrentMemory::load(eval_place'.mem)})); !(ptr_offset_inbounds(eval_place', eval_place.Ok.0.0.ptr.thin_pointer, x0) is Ok): Err(ptr_offset_inbounds(eval_place', eval_place.Ok.0.0.ptr.thin_pointer, x0).Err.0)}), eval_place.Ok.0.1.Enum.discriminator)?
val is GetDiscriminant & eval_place.Ok.0.1 is Enum & not eval_place.Ok.0.0.aligned => Err(Ub("Getting the discriminant of a place based on a misaligned pointer."))
val is Variant => Ok((Variant{discriminant: val.Variant.discriminant, data: eval_value.Ok.0.0}, val.Variant.enum_ty)) ; self := eval_value' ; eval_value(self, val.Variant.data)?
val is Union & val.Union.union_ty is Union => Ok((decode(val.Union.union_ty, wsub(repeat(Uninit, val.Union.union_ty.Union.size), val.Union.union_ty.Union.fields[val.Union.field].0, encode(val.Union.union_ty.Union.fields[val.Union.field].1, eval_value.Ok.0.0))).Some.0, val.Union.union_ty)) ; self := eval_value' ; eval_value(self, val.Union.expr)?
val is Tuple => Ok((Tuple([eval_value(self, each(val.Tuple.0)).Ok.0.0 for val.Tuple.0]), val.Tuple.1)) ; self := loop ; loop = fold(val.Tuple.0, (self), each(val.Tuple.0), (after Machine::eval_value(acc0))) ; for all val.Tuple.0: eval_value(self, each(val.Tuple.0)) is Ok
val is Constant => Ok((eval_constant.Ok.0, val.Constant.1)) ; self := eval_constant' ; eval_constant(self, val.Constant.0)?
## Machine::eval_place(self, place)
place is Downcast & eval_place.Ok.0.1 is Enum => Ok((eval_place.Ok.0.0, get(eval_place.Ok.0.1.Enum.variants, place.Downcast.discriminant).Some.0.ty)) ; self := eval_place' ; eval_place(self, place.Downcast.root)?
place is Index & eval_value.Ok.0.0 is Int & eval_place.Ok.0.1 is Slice & eval_place.Ok.0.0.ptr.metadata.Some.0 is ElementCount & (-1*eval_value.Ok.0.0.Int.0 + -1) >= 0 => Err(Ub("access to out-of-bounds index"))
place is Index & eval_value.Ok.0.0 is Int & eval_place.Ok.0.1 is Slice & eval_place.Ok.0.0.ptr.metadata.Some.0 is ElementCount & not (-1*eval_value.Ok.0.0.Int.0 + -1) >= 0 & (-1*eval_place.Ok.0.0.ptr.metadata.Some.0.ElementCount.0 + eval_value.Ok.0.0.Int.0) >= 0 => Err(Ub("access to out-of-bounds index"))
place is Index & eval_value.Ok.0.0 is Int & eval_place.Ok.0.1 is Slice & eval_place.Ok.0.0.ptr.metadata.Some.0 is ElementCount & not (-1*eval_value.Ok.0.0.Int.0 + -1) >= 0 & not (-1*eval_place.Ok.0.0.ptr.metadata.Some.0.ElementCount.0 + eval_value.Ok.0.0.Int.0) >= 0 & layout(eval_place.Ok.0.1.Slice.elem) is Sized & (-1*eval_value.Ok.0.0.Int.0 * layout(eval_place.Ok.0.1.Slice.elem).Sized.0 + compute_size(eval_value', layout(eval_place.Ok.0.1), eval_place.Ok.0.0.ptr.metadata)) >= 0 => Ok((Place{ptr: Pointer{thin_pointer: ptr_offset_inbounds(eval_value', eval_place.Ok.0.0.ptr.thin_pointer, eval_value.Ok.0.0.Int.0 * layout(eval_place.Ok.0.1.Slice.elem).Sized.0).Ok.0, metadata: None}, aligned: eval_place.Ok.0.0.aligned}, eval_place.Ok.0.1.Slice.elem)) ; self := eval_value' ; eval_place(self, place.Index.root)? ; eval_value(eval_place', place.Index.index)? ; ptr_offset_inbounds(eval_value', eval_place.Ok.0.0.ptr.thin_pointer, eval_value.Ok.0.0.Int.0 * layout(eval_place.Ok.0.1.Slice.elem).Sized.0)?
place is Index & eval_value.Ok.0.0 is Int & eval_place.Ok.0.1 is Array & (-1*eval_value.Ok.0.0.Int.0 + -1) >= 0 => Err(Ub("access to out-of-bounds index"))
place is Index & eval_value.Ok.0.0 is Int & eval_place.Ok.0.1 is Array & not (-1*eval_value.Ok.0.0.Int.0 + -1) >= 0 & (-1*eval_place.Ok.0.1.Array.count + eval_value.Ok.0.0.Int.0) >= 0 => Err(Ub("access to out-of-bounds index"))
place is Index & eval_value.Ok.0.0 is Int & eval_place.Ok.0.1 is Array & not (-1*eval_value.Ok.0.0.Int.0 + -1) >= 0 & not (-1*eval_place.Ok.0.1.Array.count + eval_value.Ok.0.0.Int.0) >= 0 & layout(eval_place.Ok.0.1.Array.elem) is Sized & (-1*eval_value.Ok.0.0.Int.0 * layout(eval_place.Ok.0.1.Array.elem).Sized.0 + compute_size(eval_value', layout(eval_place.Ok.0.1), eval_place.Ok.0.0.ptr.metadata)) >= 0 => Ok((Place{ptr: Pointer{thin_pointer: ptr_offset_inbounds(eval_value', eval_place.Ok.0.0.ptr.thin_pointer, eval_value.Ok.0.0.Int.0 * layout(eval_place.Ok.0.1.Array.elem).Sized.0).Ok.0, metadata: None}, aligned: eval_place.Ok.0.0.aligned}, eval_place.Ok.0.1.Array.elem)) ; self := eval_value' ; eval_place(self, place.Index.root)? ; eval_value(eval_place', place.Index.index)? ; ptr_offset_inbounds(eval_value', eval_place.Ok.0.0.ptr.thin_pointer, eval_value.Ok.0.0.Int.0 * layout(eval_place.Ok.0.1.Array.elem).Sized.0)?
place is Field & eval_place.Ok.0.1 is Union & (-1*eval_place.Ok.0.1.Union.fields[place.Field.field].0 + compute_size(eval_place', layout(eval_place.Ok.0.1), eval_place.Ok.0.0.ptr.metadata)) >= 0 & layout(eval_place.Ok.0.1.Union.fields[place.Field.field].1) is Sized => Ok((Place{ptr: Pointer{thin_pointer: ptr_offset_inbounds(eval_place', eval_place.Ok.0.0.ptr.thin_pointer, eval_place.Ok.0.1.Union.fields[place.Field.field].0).Ok.0, metadata: None}, aligned: eval_place.Ok.0.0.aligned}, eval_place.Ok.0.1.Union.fields[place.Field.field].1)) ; self := eval_place' ; eval_place(self, place.Field.root)? ; ptr_offset_inbounds(eval_place', eval_place.Ok.0.0.ptr.thin_pointer, eval_place.Ok.0.1.Union.fields[place.Field.field].0)?
place is Field & eval_place.Ok.0.1 is Union & (-1*eval_place.Ok.0.1.Union.fields[place.Field.field].0 + compute_size(eval_place', layout(eval_place.Ok.0.1), eval_place.Ok.0.0.ptr.metadata)) >= 0 & not layout(eval_place.Ok.0.1.Union.fields[place.Field.field].1) is Sized => Ok((Place{ptr: Pointer{thin_pointer: ptr_offset_inbounds(eval_place', eval_place.Ok.0.0.ptr.thin_pointer, eval_place.Ok.0.1.Union.fields[place.Field.field].0).Ok.0, metadata: eval_place.Ok.0.0.ptr.metadata}, aligned: eval_place.Ok.0.0.aligned}, eval_place.Ok.0.1.Union.fields[place.Field.field].1)) ; self := eval_place' ; eval_place(self, place.Field.root)? ; ptr_offset_inbounds(eval_place', eval_place.Ok.0.0.ptr.thin_pointer, eval_place.Ok.0.1.Union.fields[place.Field.field].0)?
place is Field & eval_place.Ok.0.1 is Tuple & place.Field.field >= 0 & (-1*place.Field.field + len(eval_place.Ok.0.1.Tuple.sized_fields) + -1) >= 0 & (-1*eval_place.Ok.0.1.Tuple.sized_fields[place.Field.field].0 + compute_size(eval_place', layout(eval_place.Ok.0.1), eval_place.Ok.0.0.ptr.metadata)) >= 0 & layout(eval_place.Ok.0.1.Tuple.sized_fields[place.Field.field].1) is Sized => Ok((Place{ptr: Pointer{thin_pointer: ptr_offset_inbounds(eval_place', eval_place.Ok.0.0.ptr.thin_pointer, eval_place.Ok.0.1.Tuple.sized_fields[place.Field.field].0).Ok.0, metadata: None}, aligned: eval_place.Ok.0.0.aligned}, eval_place.Ok.0.1.Tuple.sized_fields[place.Field.field].1)) ; self := eval_place' ; eval_place(self, place.Field.root)? ; ptr_offset_inbounds(eval_place', eval_place.Ok.0.0.ptr.thin_pointer, eval_place.Ok.0.1.Tuple.sized_fields[place.Field.field].0)?
place is Field & eval_place.Ok.0.1 is Tuple & place.Field.field >= 0 & (-1*place.Field.field + len(eval_place.Ok.0.1.Tuple.sized_fields) + -1) >= 0 & (-1*eval_place.Ok.0.1.Tuple.sized_fields[place.Field.field].0 + compute_size(eval_place', layout(eval_place.Ok.0.1), eval_place.Ok.0.0.ptr.metadata)) >= 0 & not layout(eval_place.Ok.0.1.Tuple.sized_fields[place.Field.field].1) is Sized => Ok((Place{ptr: Pointer{thin_pointer: ptr_offset_inbounds(eval_place', eval_place.Ok.0.0.ptr.thin_pointer, eval_place.Ok.0.1.Tuple.sized_fields[place.Field.field].0).Ok.0, metadata: eval_place.Ok.0.0.ptr.metadata}, aligned: eval_place.Ok.0.0.aligned}, eval_place.Ok.0.1.Tuple.sized_fields[place.Field.field].1)) ; self := eval_place' ; eval_place(self, place.Field.root)? ; ptr_offset_inbounds(eval_place', eval_place.Ok.0.0.ptr.thin_pointer, eval_place.Ok.0.1.Tuple.sized_fields[place.Field.field].0)?
place is Field & eval_place.Ok.0.1 is Tuple & place.Field.field >= 0 & not (-1*place.Field.field + len(eval_place.Ok.0.1.Tuple.sized_fields) + -1) >= 0 & len(eval_place.Ok.0.1.Tuple.sized_fields) == place.Field.field & (-1*tail_offset(eval_place.Ok.0.1.Tuple.sized_head_layout, compute_align(eval_place', layout(eval_place.Ok.0.1.Tuple.unsized_field.Some.0), eval_place.Ok.0.0.ptr.metadata)) + compute_size(eval_place', layout(eval_place.Ok.0.1), eval_place.Ok.0.0.ptr.metadata)) >= 0 & layout(eval_place.Ok.0.1.Tuple.unsized_field.Some.0) is Sized => Ok((Place{ptr: Pointer{thin_pointer: ptr_offset_inbounds(eval_place', eval_place.Ok.0.0.ptr.thin_pointer, tail_offset(eval_place.Ok.0.1.Tuple.sized_head_layout, compute_align(eval_place', layout(eval_place.Ok.0.1.Tuple.unsized_field.Some.0), eval_place.Ok.0.0.ptr.metadata))).Ok.0, metadata: None}, aligned: eval_place.Ok.0.0.aligned}, eval_place.Ok.0.1.Tuple.unsized_field.Some.0)) ; self := eval_place' ; eval_place(self, place.Field.root)? ; ptr_offset_inbounds(eval_place', eval_place.Ok.0.0.ptr.thin_pointer, tail_offset(eval_place.Ok.0.1.Tuple.sized_head_layout, compute_align(eval_place', layout(eval_place.Ok.0.1.Tuple.unsized_field.Some.0), eval_place.Ok.0.0.ptr.metadata)))?
place is Field & eval_place.Ok.0.1 is Tuple & place.Field.field >= 0 & not (-1*place.Field.field + len(eval_place.Ok.0.1.Tuple.sized_fields) + -1) >= 0 & len(eval_place.Ok.0.1.Tuple.sized_fields) == place.Field.field & (-1*tail_offset(eval_place.Ok.0.1.Tuple.sized_head_layout, compute_align(eval_place', layout(eval_place.Ok.0.1.Tuple.unsized_field.Some.0), eval_place.Ok.0.0.ptr.metadata)) + compute_size(eval_place', layout(eval_place.Ok.0.1), eval_place.Ok.0.0.ptr.metadata)) >= 0 & not layout(eval_place.Ok.0.1.Tuple.unsized_field.Some.0) is Sized => Ok((Place{ptr: Pointer{thin_pointer: ptr_offset_inbounds(eval_place', eval_place.Ok.0.0.ptr.thin_pointer, tail_offset(eval_place.Ok.0.1.Tuple.sized_head_layout, compute_align(eval_place', layout(eval_place.Ok.0.1.Tuple.unsized_field.Some.0), eval_place.Ok.0.0.ptr.metadata))).Ok.0, metadata: eval_place.Ok.0.0.ptr.metadata}, aligned: eval_place.Ok.0.0.aligned}, eval_place.Ok.0.1.Tuple.unsized_field.Some.0)) ; self := eval_place' ; eval_place(self, place.Field.root)? ; ptr_offset_inbounds(eval_place', eval_place.Ok.0.0.ptr.thin_pointer, tail_offset(eval_place.Ok.0.1.Tuple.sized_head_layout, compute_align(eval_place', layout(eval_place.Ok.0.1.Tuple.unsized_field.Some.0), eval_place.Ok.0.0.ptr.metadata)))?
place is Deref & eval_value.Ok.0.0 is Ptr & eval_value.Ok.0.1 is Ptr & safe_pointee(eval_value.Ok.0.1.Ptr.0) is None => Ok((Place{ptr: eval_value.Ok.0.0.Ptr.0, aligned: rem(eval_value.Ok.0.0.Ptr.0.thin_pointer.addr, compute_align(eval_value', layout(place.Deref.ty), eval_value.Ok.0.0.Ptr.0.metadata)) == 0}, place.Deref.ty)) ; self := eval_value' ; eval_value(self, place.Deref.operand)?
place is Deref & eval_value.Ok.0.0 is Ptr & eval_value.Ok.0.1 is Ptr & safe_pointee(eval_value.Ok.0.1.Ptr.0) is Some & rem(eval_value.Ok.0.0.Ptr.0.thin_pointer.addr, compute_align(eval_value', safe_pointee(eval_value.Ok.0.1.Ptr.0).Some.0.layout, eval_value.Ok.0.0.Ptr.0.metadata)) == 0 => Ok((Place{ptr: eval_value.Ok.0.0.Ptr.0, aligned: rem(eval_value.Ok.0.0.Ptr.0.thin_pointer.addr, compute_align(eval_value', layout(place.Deref.ty), eval_value.Ok.0.0.Ptr.0.metadata)) == 0}, place.Deref.ty)) ; self := eval_value' ; eval_value(self, place.Deref.operand)? ; dereferenceable(eval_value'.mem, eval_value.Ok.0.0.Ptr.0.thin_pointer, compute_size(eval_value', safe_pointee(eval_value.Ok.0.1.Ptr.0).Some.0.layout, eval_value.Ok.0.0.Ptr.0.metadata))?
place is Local & not len(self.thread.stack) == 0 & get(self.thread.top.locals, place.Local.0) is None => Err(Ub("access to a dead local"))
place is Local & not len(self.thread.stack) == 0 & get(self.thread.top.locals, place.Local.0) is Some => Ok((Place{ptr: Pointer{thin_pointer: get(self.thread.top.locals, place.Local.0).Some.0, metadata: None}, aligned: True}, get(self.thread.top.func.locals, place.Local.0).Some.0))
## Machine::eval_constant(self, constant)
constant is PointerWithoutProvenance => Ok(Ptr(Pointer{thin_pointer: ThinPointer{addr: constant.PointerWithoutProvenance.0, provenance: None}, metadata: None}))
constant is VTablePointer => Ok(Ptr(Pointer{thin_pointer: get(self.vtable_ptrs, constant.VTablePointer.0).Some.0, metadata: None}))
constant is FnPointer => Ok(Ptr(Pointer{thin_pointer: get(self.fn_ptrs, constant.FnPointer.0).Some.0, metadata: None}))
constant is GlobalPointer => Ok(Ptr(Pointer{thin_pointer: wrapping_offset(get(self.global_ptrs, constant.GlobalPointer.0.name).Some.0, constant.GlobalPointer.0.offset), metadata: None}))
constant is Bool => Ok(Bool(constant.Bool.0))
constant is Int => Ok(Int(constant.Int.0))
## Machine::place_store(self, place, val, ty)
place.aligned => Ok(()) ; self := typed_store' ; typed_store(self, place.ptr.thin_pointer, val, ty, 1, None)?
not place.aligned => Err(Ub("storing to a place based on a misaligned pointer"))
## Machine::place_load(self, place, ty)
place.aligned => Ok(typed_load.Ok.0) ; self := typed_load' ; typed_load(self, place.ptr.thin_pointer, ty, 1, None)?
not place.aligned => Err(Ub("loading from a place based on a misaligned pointer"))
## Machine::retag_val(self, val, ty, fn_entry)
val is Union => Ok(val)
val is Variant & ty is Enum => Ok(Variant{discriminant: val.Variant.discriminant, data: retag_val.Ok.0}) ; self := retag_val' ; retag_val(self, val.Variant.data, get(ty.Enum.variants, val.Variant.discriminant).Some.0.ty, fn_entry)?
val is Tuple & ty is Array => Ok(Tuple([retag_val(self, each(val.Tuple.0), ty.Array.elem, fn_entry).Ok.0 for val.Tuple.0])) ; self := loop ; loop = fold(val.Tuple.0, (self), each(val.Tuple.0), (after Machine::retag_val(acc0))) ; for all val.Tuple.0: retag_val(self, each(val.Tuple.0), ty.Array.elem, fn_entry) is Ok
val is Tuple & ty is Tuple => Ok(Tuple([retag_val(self, each(val.Tuple.0), each(ty.Tuple.sized_fields).1, fn_entry).Ok.0 for zip(val.Tuple.0, ty.Tuple.sized_fields)])) ; self := loop ; loop = fold(zip(val.Tuple.0, ty.Tuple.sized_fields), (self), (each(val.Tuple.0), each(ty.Tuple.sized_fields)), (after Machine::retag_val(acc0))) ; for all zip(val.Tuple.0, ty.Tuple.sized_fields): retag_val(self, each(val.Tuple.0), each(ty.Tuple.sized_fields).1, fn_entry) is Ok
val is Ptr & ty is Ptr & not len(self.thread.stack) == 0 => Ok(Ptr(retag_ptr.Ok.0)) ; self := self{.mem := retag_ptr'1}{.thread := self.thread{.top := self.thread.top{.extra := retag_ptr'2}}} ; retag_ptr(self.mem, self.thread.top.extra, val.Ptr.0, ty.Ptr.0, fn_entry, (|x0| get(self.prog.vtables, each(self.vtable_ptrs).0).Some.0))?
val is Bool => Ok(val)
val is Int => Ok(val)
"""


def check(c):
    n = sp.book(c, T)
    c.floor("functions", n, 6)
