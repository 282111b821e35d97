"""P17: operators and casts."""
import sp, tool

META = dict(rule="Decision table of the specification, one step at a time: for each case of one operator, the result, what it leaves in every mutable argument, and the other steps it takes, in order; on every path.")
T = r"""
## Machine::eval_int_bin_op(op, left, right, left_ty)
op is BitXor => Ok(bitxor(left, right))
op is BitOr => Ok(bitor(left, right))
op is BitAnd => Ok(bitand(left, right))
op is ShrUnchecked & (-1*right + -1) >= 0 => Err(Ub("overflow in unchecked shift"))
op is ShrUnchecked & not (-1*right + -1) >= 0 & (-8*left_ty.size + right) >= 0 => Err(Ub("overflow in unchecked shift"))
op is ShrUnchecked & not (-1*right + -1) >= 0 & not (-8*left_ty.size + right) >= 0 => Ok(shr(left, right))
op is Shr => Ok(shr(left, rem_euclid(right, (8*left_ty.size))))
op is ShlUnchecked & (-1*right + -1) >= 0 => Err(Ub("overflow in unchecked shift"))
op is ShlUnchecked & not (-1*right + -1) >= 0 & (-8*left_ty.size + right) >= 0 => Err(Ub("overflow in unchecked shift"))
op is ShlUnchecked & not (-1*right + -1) >= 0 & not (-8*left_ty.size + right) >= 0 => Ok(shl(left, right))
op is Shl => Ok(shl(left, rem_euclid(right, (8*left_ty.size))))
op is Rem & right == 0 => Err(Ub("modulus of remainder is zero"))
op is Rem & not right == 0 & can_represent(left_ty, div(left, right)) => Ok(rem(left, right))
op is Rem & not right == 0 & not can_represent(left_ty, div(left, right)) => Err(Ub("overflow in remainder"))
op is DivExact & right == 0 => Err(Ub("division by zero"))
op is DivExact & not right == 0 & can_represent(left_ty, div(left, right)) & not rem(left, right) == 0 => Err(Ub("non-zero remainder in exact division"))
op is DivExact & not right == 0 & can_represent(left_ty, div(left, right)) & rem(left, right) == 0 => Ok(div(left, right))
op is DivExact & not right == 0 & not can_represent(left_ty, div(left, right)) => Err(Ub("overflow in division"))
op is Div & right == 0 => Err(Ub("division by zero"))
op is Div & not right == 0 & can_represent(left_ty, div(left, right)) => Ok(div(left, right))
op is Div & not right == 0 & not can_represent(left_ty, div(left, right)) => Err(Ub("overflow in division"))
op is MulUnchecked & can_represent(left_ty, left * right) => Ok(left * right)
op is MulUnchecked & not can_represent(left_ty, left * right) => Err(Ub("overflow in unchecked mul"))
op is Mul => Ok(left * right)
op is SubUnchecked & can_represent(left_ty, (-1*right + left)) => Ok((-1*right + left))
op is SubUnchecked & not can_represent(left_ty, (-1*right + left)) => Err(Ub("overflow in unchecked sub"))
op is Sub => Ok((-1*right + left))
op is AddUnchecked & can_represent(left_ty, (left + right)) => Ok((left + right))
op is AddUnchecked & not can_represent(left_ty, (left + right)) => Err(Ub("overflow in unchecked add"))
op is Add => Ok((left + right))
## Machine::eval_int_un_op(op, operand, operand_ty)
op is CountOnes => Ok(eval_count_ones(operand, operand_ty))
op is BitNot => Ok(bring_in_bounds(operand_ty, not(operand)))
op is Neg => Ok(bring_in_bounds(operand_ty, (-1*operand)))
## Machine::eval_count_ones(operand, int_ty)
always => loop ; loop = fold(Range{start: 0, end: (8*int_ty.size)}, (0, operand), each(Range{start: 0, end: (8*int_ty.size)}), ((acc0 + bitand(1, acc1)), shr(acc1, 1))) ; loop#2 = fold(Range{start: 0, end: (8*int_ty.size)}, (operand), each(Range{start: 0, end: (8*int_ty.size)}), (shr(acc0, 1))) ; for all Range{start: 0, end: (8*int_ty.size)}: !(!((-1*each(Range{start: 0, end: (8*int_ty.size)}) + 8*int_ty.size + -1) >= 0)) && !(!(each(Range{start: 0, end: (8*int_ty.size)}) >= 0))
## Machine::eval_rel_op(rel, ord)
rel is Cmp & ord is Greater => (Int(1), Int(IntType{signed: Signed, size: 1}))
rel is Cmp & ord is Equal => (Int(0), Int(IntType{signed: Signed, size: 1}))
rel is Cmp & ord is Less => (Int(-1), Int(IntType{signed: Signed, size: 1}))
rel is Ne => (Bool(!(ord is Equal)), Bool)
rel is Eq => (Bool(ord is Equal), Bool)
rel is Ge => (Bool(!(ord is Less)), Bool)
rel is Le => (Bool(!(ord is Greater)), Bool)
rel is Gt => (Bool(ord is Greater), Bool)
rel is Lt => (Bool(ord is Less), Bool)
## Machine::compare_ptr(left, right)
(-1*right.thin_pointer.addr + left.thin_pointer.addr + -1) >= 0 & left.metadata is Some & right.metadata is Some & left.metadata.Some.0 is VTablePointer & right.metadata.Some.0 is VTablePointer & (-1*right.metadata.Some.0.VTablePointer.0.addr + left.metadata.Some.0.VTablePointer.0.addr + -1) >= 0 => Greater
(-1*right.thin_pointer.addr + left.thin_pointer.addr + -1) >= 0 & left.metadata is Some & right.metadata is Some & left.metadata.Some.0 is VTablePointer & right.metadata.Some.0 is VTablePointer & left.metadata.Some.0.VTablePointer.0.addr == right.metadata.Some.0.VTablePointer.0.addr => Greater
(-1*right.thin_pointer.addr + left.thin_pointer.addr + -1) >= 0 & left.metadata is Some & right.metadata is Some & left.metadata.Some.0 is VTablePointer & right.metadata.Some.0 is VTablePointer & (-1*left.metadata.Some.0.VTablePointer.0.addr + right.metadata.Some.0.VTablePointer.0.addr + -1) >= 0 => Greater
(-1*right.thin_pointer.addr + left.thin_pointer.addr + -1) >= 0 & left.metadata is Some & right.metadata is Some & left.metadata.Some.0 is ElementCount & right.metadata.Some.0 is ElementCount & (-1*right.metadata.Some.0.ElementCount.0 + left.metadata.Some.0.ElementCount.0 + -1) >= 0 => Greater
(-1*right.thin_pointer.addr + left.thin_pointer.addr + -1) >= 0 & left.metadata is Some & right.metadata is Some & left.metadata.Some.0 is ElementCount & right.metadata.Some.0 is ElementCount & left.metadata.Some.0.ElementCount.0 == right.metadata.Some.0.ElementCount.0 => Greater
(-1*right.thin_pointer.addr + left.thin_pointer.addr + -1) >= 0 & left.metadata is Some & right.metadata is Some & left.metadata.Some.0 is ElementCount & right.metadata.Some.0 is ElementCount & (-1*left.metadata.Some.0.ElementCount.0 + right.metadata.Some.0.ElementCount.0 + -1) >= 0 => Greater
(-1*right.thin_pointer.addr + left.thin_pointer.addr + -1) >= 0 & left.metadata is None & right.metadata is None => Greater
left.thin_pointer.addr == right.thin_pointer.addr & left.metadata is Some & right.metadata is Some & left.metadata.Some.0 is VTablePointer & right.metadata.Some.0 is VTablePointer & (-1*right.metadata.Some.0.VTablePointer.0.addr + left.metadata.Some.0.VTablePointer.0.addr + -1) >= 0 => Greater
left.thin_pointer.addr == right.thin_pointer.addr & left.metadata is Some & right.metadata is Some & left.metadata.Some.0 is VTablePointer & right.metadata.Some.0 is VTablePointer & left.metadata.Some.0.VTablePointer.0.addr == right.metadata.Some.0.VTablePointer.0.addr => Equal
left.thin_pointer.addr == right.thin_pointer.addr & left.metadata is Some & right.metadata is Some & left.metadata.Some.0 is VTablePointer & right.metadata.Some.0 is VTablePointer & (-1*left.metadata.Some.0.VTablePointer.0.addr + right.metadata.Some.0.VTablePointer.0.addr + -1) >= 0 => Less
left.thin_pointer.addr == right.thin_pointer.addr & left.metadata is Some & right.metadata is Some & left.metadata.Some.0 is ElementCount & right.metadata.Some.0 is ElementCount & (-1*right.metadata.Some.0.ElementCount.0 + left.metadata.Some.0.ElementCount.0 + -1) >= 0 => Greater
left.thin_pointer.addr == right.thin_pointer.addr & left.metadata is Some & right.metadata is Some & left.metadata.Some.0 is ElementCount & right.metadata.Some.0 is ElementCount & left.metadata.Some.0.ElementCount.0 == right.metadata.Some.0.ElementCount.0 => Equal
left.thin_pointer.addr == right.thin_pointer.addr & left.metadata is Some & right.metadata is Some & left.metadata.Some.0 is ElementCount & right.metadata.Some.0 is ElementCount & (-1*left.metadata.Some.0.ElementCount.0 + right.metadata.Some.0.ElementCount.0 + -1) >= 0 => Less
left.thin_pointer.addr == right.thin_pointer.addr & left.metadata is None & right.metadata is None => Equal
(-1*left.thin_pointer.addr + right.thin_pointer.addr + -1) >= 0 & left.metadata is Some & right.metadata is Some & left.metadata.Some.0 is VTablePointer & right.metadata.Some.0 is VTablePointer & (-1*right.metadata.Some.0.VTablePointer.0.addr + left.metadata.Some.0.VTablePointer.0.addr + -1) >= 0 => Less
(-1*left.thin_pointer.addr + right.thin_pointer.addr + -1) >= 0 & left.metadata is Some & right.metadata is Some & left.metadata.Some.0 is VTablePointer & right.metadata.Some.0 is VTablePointer & left.metadata.Some.0.VTablePointer.0.addr == right.metadata.Some.0.VTablePointer.0.addr => Less
(-1*left.thin_pointer.addr + right.thin_pointer.addr + -1) >= 0 & left.metadata is Some & right.metadata is Some & left.metadata.Some.0 is VTablePointer & right.metadata.Some.0 is VTablePointer & (-1*left.metadata.Some.0.VTablePointer.0.addr + right.metadata.Some.0.VTablePointer.0.addr + -1) >= 0 => Less
(-1*left.thin_pointer.addr + right.thin_pointer.addr + -1) >= 0 & left.metadata is Some & right.metadata is Some & left.metadata.Some.0 is ElementCount & right.metadata.Some.0 is ElementCount & (-1*right.metadata.Some.0.ElementCount.0 + left.metadata.Some.0.ElementCount.0 + -1) >= 0 => Less
(-1*left.thin_pointer.addr + right.thin_pointer.addr + -1) >= 0 & left.metadata is Some & right.metadata is Some & left.metadata.Some.0 is ElementCount & right.metadata.Some.0 is ElementCount & left.metadata.Some.0.ElementCount.0 == right.metadata.Some.0.ElementCount.0 => Less
(-1*left.thin_pointer.addr + right.thin_pointer.addr + -1) >= 0 & left.metadata is Some & right.metadata is Some & left.metadata.Some.0 is ElementCount & right.metadata.Some.0 is ElementCount & (-1*left.metadata.Some.0.ElementCount.0 + right.metadata.Some.0.ElementCount.0 + -1) >= 0 => Less
(-1*left.thin_pointer.addr + right.thin_pointer.addr + -1) >= 0 & left.metadata is None & right.metadata is None => Less
## Machine::eval_cast_op(self, cast_op, arg3)
cast_op is Transmute & layout(arg3.1) is Sized & layout(cast_op.Transmute.0) is Sized & not layout(arg3.1).Sized.0 == layout(cast_op.Transmute.0).Sized.0 => Err(Ub("transmute between types of different size"))
cast_op is Transmute & layout(arg3.1) is Sized & layout(cast_op.Transmute.0) is Sized & layout(arg3.1).Sized.0 == layout(cast_op.Transmute.0).Sized.0 => Ok((transmute(self, arg3.0, arg3.1, cast_op.Transmute.0).Ok.0, cast_op.Transmute.0)) ; transmute(self, arg3.0, arg3.1, cast_op.Transmute.0)?
cast_op is IntToInt & arg3.0 is Int => Ok((Int(bring_in_bounds(cast_op.IntToInt.0, arg3.0.Int.0)), Int(cast_op.IntToInt.0)))
## Machine::eval_un_op(self, operator, arg3)
operator is VTableMethodLookup & arg3.0 is Ptr & arg3.1 is Ptr & arg3.0.Ptr.0.thin_pointer == each(self.vtable_ptrs).1 => Ok((Ptr(Pointer{thin_pointer: get(self.fn_ptrs, get(get(self.prog.vtables, each(self.vtable_ptrs).0).Some.0.methods, operator.VTableMethodLookup.0).Some.0).Some.0, metadata: None}), Ptr(FnPtr)))
operator is ComputeAlign => Ok((Int(compute_align(self, layout(operator.ComputeAlign.0), decode_value(meta_kind(operator.ComputeAlign.0), arg3.0))), Int(IntType{signed: Unsigned, size: Target::PTR_SIZE})))
operator is ComputeSize => Ok((Int(compute_size(self, layout(operator.ComputeSize.0), decode_value(meta_kind(operator.ComputeSize.0), arg3.0))), Int(IntType{signed: Unsigned, size: Target::PTR_SIZE})))
operator is GetMetadata & arg3.0 is Ptr & arg3.1 is Ptr & meta_kind(arg3.1.Ptr.0) is None => Ok((encode_as_value(meta_kind(arg3.1.Ptr.0), arg3.0.Ptr.0.metadata), unit_type())) ; check_value(self, encode_as_value(meta_kind(arg3.1.Ptr.0), arg3.0.Ptr.0.metadata), unit_type())?
operator is GetMetadata & arg3.0 is Ptr & arg3.1 is Ptr & meta_kind(arg3.1.Ptr.0) is ElementCount => Ok((encode_as_value(meta_kind(arg3.1.Ptr.0), arg3.0.Ptr.0.metadata), Int(IntType{signed: Unsigned, size: Target::PTR_SIZE}))) ; check_value(self, encode_as_value(meta_kind(arg3.1.Ptr.0), arg3.0.Ptr.0.metadata), Int(IntType{signed: Unsigned, size: Target::PTR_SIZE}))?
operator is GetMetadata & arg3.0 is Ptr & arg3.1 is Ptr & meta_kind(arg3.1.Ptr.0) is VTablePointer => Ok((encode_as_value(meta_kind(arg3.1.Ptr.0), arg3.0.Ptr.0.metadata), Ptr(VTablePtr(meta_kind(arg3.1.Ptr.0).VTablePointer.0)))) ; check_value(self, encode_as_value(meta_kind(arg3.1.Ptr.0), arg3.0.Ptr.0.metadata), Ptr(VTablePtr(meta_kind(arg3.1.Ptr.0).VTablePointer.0)))?
operator is GetThinPointer & arg3.0 is Ptr => Ok((Ptr(Pointer{thin_pointer: arg3.0.Ptr.0.thin_pointer, metadata: None}), Ptr(Raw{meta_kind: None})))
operator is Cast => Ok(eval_cast_op(self, operator.Cast.0, arg3).Ok.0) ; eval_cast_op(self, operator.Cast.0, arg3)?
operator is Int & arg3.1 is Int & arg3.0 is Int & not operator.Int.0 is CountOnes => Ok((Int(eval_int_un_op(operator.Int.0, arg3.0.Int.0, arg3.1.Int.0).Ok.0), Int(arg3.1.Int.0))) ; eval_int_un_op(operator.Int.0, arg3.0.Int.0, arg3.1.Int.0)? ; check_value(self, Int(eval_int_un_op(operator.Int.0, arg3.0.Int.0, arg3.1.Int.0).Ok.0), Int(arg3.1.Int.0))?
operator is Int & arg3.1 is Int & arg3.0 is Int & operator.Int.0 is CountOnes => Ok((Int(eval_int_un_op(operator.Int.0, arg3.0.Int.0, arg3.1.Int.0).Ok.0), Int(IntType{signed: Unsigned, size: 4}))) ; eval_int_un_op(operator.Int.0, arg3.0.Int.0, arg3.1.Int.0)? ; check_value(self, Int(eval_int_un_op(operator.Int.0, arg3.0.Int.0, arg3.1.Int.0).Ok.0), Int(IntType{signed: Unsigned, size: 4}))?
## Machine::eval_bin_op(self, operator, arg3, arg4)
operator is ConstructWidePointer & arg3.0 is Ptr & arg3.0.Ptr.0.metadata is None => Ok((Ptr(Pointer{thin_pointer: arg3.0.Ptr.0.thin_pointer, metadata: decode_value(meta_kind(operator.ConstructWidePointer.0), arg4.0)}), Ptr(operator.ConstructWidePointer.0))) ; check_value(self, Ptr(Pointer{thin_pointer: arg3.0.Ptr.0.thin_pointer, metadata: decode_value(meta_kind(operator.ConstructWidePointer.0), arg4.0)}), Ptr(operator.ConstructWidePointer.0))?
operator is PtrOffsetFrom & arg3.0 is Ptr & arg3.0.Ptr.0.metadata is None & arg4.0 is Ptr & arg4.0.Ptr.0.metadata is None & operator.PtrOffsetFrom.inbounds & operator.PtrOffsetFrom.nonneg & (-1*arg3.0.Ptr.0.thin_pointer.addr + arg4.0.Ptr.0.thin_pointer.addr + -1) >= 0 => Err(Ub("PtrOffsetFrom: negative result with `nonneg` flag set"))
operator is PtrOffsetFrom & arg3.0 is Ptr & arg3.0.Ptr.0.metadata is None & arg4.0 is Ptr & arg4.0.Ptr.0.metadata is None & operator.PtrOffsetFrom.inbounds & operator.PtrOffsetFrom.nonneg & not (-1*arg3.0.Ptr.0.thin_pointer.addr + arg4.0.Ptr.0.thin_pointer.addr + -1) >= 0 => Ok((Int((-1*arg4.0.Ptr.0.thin_pointer.addr + arg3.0.Ptr.0.thin_pointer.addr)), Int(IntType{signed: Signed, size: Target::PTR_SIZE}))) ; signed_dereferenceable(self.mem, arg3.0.Ptr.0.thin_pointer, (-1*arg3.0.Ptr.0.thin_pointer.addr + arg4.0.Ptr.0.thin_pointer.addr))? ; signed_dereferenceable(self.mem, arg4.0.Ptr.0.thin_pointer, (-1*arg4.0.Ptr.0.thin_pointer.addr + arg3.0.Ptr.0.thin_pointer.addr))?
operator is PtrOffsetFrom & arg3.0 is Ptr & arg3.0.Ptr.0.metadata is None & arg4.0 is Ptr & arg4.0.Ptr.0.metadata is None & operator.PtrOffsetFrom.inbounds & not operator.PtrOffsetFrom.nonneg => Ok((Int((-1*arg4.0.Ptr.0.thin_pointer.addr + arg3.0.Ptr.0.thin_pointer.addr)), Int(IntType{signed: Signed, size: Target::PTR_SIZE}))) ; signed_dereferenceable(self.mem, arg3.0.Ptr.0.thin_pointer, (-1*arg3.0.Ptr.0.thin_pointer.addr + arg4.0.Ptr.0.thin_pointer.addr))? ; signed_dereferenceable(self.mem, arg4.0.Ptr.0.thin_pointer, (-1*arg4.0.Ptr.0.thin_pointer.addr + arg3.0.Ptr.0.thin_pointer.addr))?
operator is PtrOffsetFrom & arg3.0 is Ptr & arg3.0.Ptr.0.metadata is None & arg4.0 is Ptr & arg4.0.Ptr.0.metadata is None & not operator.PtrOffsetFrom.inbounds & operator.PtrOffsetFrom.nonneg & (-1*bring_in_bounds((-1*arg4.0.Ptr.0.thin_pointer.addr + arg3.0.Ptr.0.thin_pointer.addr), Signed, Target::PTR_SIZE) + -1) >= 0 => Err(Ub("PtrOffsetFrom: negative result with `nonneg` flag set"))
operator is PtrOffsetFrom & arg3.0 is Ptr & arg3.0.Ptr.0.metadata is None & arg4.0 is Ptr & arg4.0.Ptr.0.metadata is None & not operator.PtrOffsetFrom.inbounds & operator.PtrOffsetFrom.nonneg & not (-1*bring_in_bounds((-1*arg4.0.Ptr.0.thin_pointer.addr + arg3.0.Ptr.0.thin_pointer.addr), Signed, Target::PTR_SIZE) + -1) >= 0 => Ok((Int(bring_in_bounds((-1*arg4.0.Ptr.0.thin_pointer.addr + arg3.0.Ptr.0.thin_pointer.addr), Signed, Target::PTR_SIZE)), Int(IntType{signed: Signed, size: Target::PTR_SIZE})))
operator is PtrOffsetFrom & arg3.0 is Ptr & arg3.0.Ptr.0.metadata is None & arg4.0 is Ptr & arg4.0.Ptr.0.metadata is None & not operator.PtrOffsetFrom.inbounds & not operator.PtrOffsetFrom.nonneg => Ok((Int(bring_in_bounds((-1*arg4.0.Ptr.0.thin_pointer.addr + arg3.0.Ptr.0.thin_pointer.addr), Signed, Target::PTR_SIZE)), Int(IntType{signed: Signed, size: Target::PTR_SIZE})))
operator is PtrOffset & arg3.0 is Ptr & arg3.0.Ptr.0.metadata is None & arg4.0 is Int & operator.PtrOffset.inbounds => Ok((Ptr(Pointer{thin_pointer: ptr_offset_inbounds(self, arg3.0.Ptr.0.thin_pointer, arg4.0.Int.0).Ok.0, metadata: None}), arg3.1)) ; ptr_offset_inbounds(self, arg3.0.Ptr.0.thin_pointer, arg4.0.Int.0)?
operator is PtrOffset & arg3.0 is Ptr & arg3.0.Ptr.0.metadata is None & arg4.0 is Int & not operator.PtrOffset.inbounds => Ok((Ptr(Pointer{thin_pointer: ptr_offset_wrapping(self, arg3.0.Ptr.0.thin_pointer, arg4.0.Int.0), metadata: None}), arg3.1))
operator is Rel & arg3.1 is Ptr & arg3.0 is Ptr & arg4.0 is Ptr => Ok(eval_rel_op(operator.Rel.0, compare_ptr(arg3.0.Ptr.0, arg4.0.Ptr.0)))
operator is Rel & arg3.1 is Bool & arg3.0 is Bool & arg4.0 is Bool & (-1*arg4.0.Bool.0 + arg3.0.Bool.0 + -1) >= 0 => Ok(eval_rel_op(operator.Rel.0, Greater))
operator is Rel & arg3.1 is Bool & arg3.0 is Bool & arg4.0 is Bool & arg3.0.Bool.0 == arg4.0.Bool.0 => Ok(eval_rel_op(operator.Rel.0, Equal))
operator is Rel & arg3.1 is Bool & arg3.0 is Bool & arg4.0 is Bool & (-1*arg3.0.Bool.0 + arg4.0.Bool.0 + -1) >= 0 => Ok(eval_rel_op(operator.Rel.0, Less))
operator is Rel & arg3.1 is Int & arg3.0 is Int & arg4.0 is Int & (-1*arg4.0.Int.0 + arg3.0.Int.0 + -1) >= 0 => Ok(eval_rel_op(operator.Rel.0, Greater))
operator is Rel & arg3.1 is Int & arg3.0 is Int & arg4.0 is Int & arg3.0.Int.0 == arg4.0.Int.0 => Ok(eval_rel_op(operator.Rel.0, Equal))
operator is Rel & arg3.1 is Int & arg3.0 is Int & arg4.0 is Int & (-1*arg3.0.Int.0 + arg4.0.Int.0 + -1) >= 0 => Ok(eval_rel_op(operator.Rel.0, Less))
operator is IntWithOverflow & arg3.1 is Int & arg3.0 is Int & arg4.0 is Int & operator.IntWithOverflow.0 is Mul => Ok((Tuple([Int(bring_in_bounds(arg3.1.Int.0, arg3.0.Int.0 * arg4.0.Int.0)), Bool(!(can_represent(arg3.1.Int.0, arg3.0.Int.0 * arg4.0.Int.0)))]), with_overflow(arg3.1.Int.0)))
operator is IntWithOverflow & arg3.1 is Int & arg3.0 is Int & arg4.0 is Int & operator.IntWithOverflow.0 is Sub => Ok((Tuple([Int(bring_in_bounds(arg3.1.Int.0, (-1*arg4.0.Int.0 + arg3.0.Int.0))), Bool(!(can_represent(arg3.1.Int.0, (-1*arg4.0.Int.0 + arg3.0.Int.0))))]), with_overflow(arg3.1.Int.0)))
operator is IntWithOverflow & arg3.1 is Int & arg3.0 is Int & arg4.0 is Int & operator.IntWithOverflow.0 is Add => Ok((Tuple([Int(bring_in_bounds(arg3.1.Int.0, (arg3.0.Int.0 + arg4.0.Int.0))), Bool(!(can_represent(arg3.1.Int.0, (arg3.0.Int.0 + arg4.0.Int.0))))]), with_overflow(arg3.1.Int.0)))
operator is Int & arg3.1 is Int & arg3.0 is Int & arg4.0 is Int => Ok((Int(bring_in_bounds(arg3.1.Int.0, eval_int_bin_op(operator.Int.0, arg3.0.Int.0, arg4.0.Int.0, arg3.1.Int.0).Ok.0)), Int(arg3.1.Int.0))) ; eval_int_bin_op(operator.Int.0, arg3.0.Int.0, arg4.0.Int.0, arg3.1.Int.0)?
## Machine::ptr_offset_wrapping(self, ptr, offset)
always => wrapping_offset(ptr, offset)
## Machine::ptr_offset_inbounds(self, ptr, offset)
in_bounds(offset, Signed, Target::PTR_SIZE) & in_bounds((offset + ptr.addr), Unsigned, Target::PTR_SIZE) => Ok(ThinPointer{addr: (offset + ptr.addr), provenance: ptr.provenance}) ; signed_dereferenceable(self.mem, ptr, offset)?
## ThinPointer::wrapping_offset(self, offset)
always => ThinPointer{addr: bring_in_bounds((offset + self.addr), Unsigned, Target::PTR_SIZE), provenance: self.provenance}
## IntType::can_represent(self, i)
always => in_bounds(i, self.signed, self.size)
## IntType::bring_in_bounds(self, i)
always => bring_in_bounds(i, self.signed, self.size)
## IntType::with_overflow(self)
align(self) >= 0 => Tuple{sized_fields: [(0, Int(self)), (self.size, Bool)], sized_head_layout: TupleHeadLayout{end: (align(self) + self.size), align: align(self), packed_align: None}, unsized_field: None}
"""


def check(c):
    n = sp.book(c, T)
    c.floor("functions", n, 14)
