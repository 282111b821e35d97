"""P27: well-formedness of constants, expressions and places."""
import sp, tool

META = dict(rule="Decision table of the specification, one step at a time: for each case of one kind of expression, the result, what it leaves in every mutable argument, and the other steps it takes, in order; on every path.")
T = r"""
## Constant::check_wf(self, ty, prog)
self is PointerWithoutProvenance & not ty is Ptr => Err(IllFormed("Constant: value does not match type"))
self is PointerWithoutProvenance & ty is Ptr & not in_bounds(self.PointerWithoutProvenance.0, Unsigned, Target::PTR_SIZE) => Err(IllFormed("Constant::PointerWithoutProvenance: pointer out-of-bounds"))
self is PointerWithoutProvenance & ty is Ptr & in_bounds(self.PointerWithoutProvenance.0, Unsigned, Target::PTR_SIZE) => Ok(())
self is VTablePointer & not ty is Ptr => Err(IllFormed("Constant: value does not match type"))
self is VTablePointer & ty is Ptr & get(prog.vtables, self.VTablePointer.0) is None => Err(IllFormed("Constant::VTablePointer: invalid vtable name"))
self is VTablePointer & ty is Ptr & get(prog.vtables, self.VTablePointer.0) is Some & not ty.Ptr.0 is VTablePtr => Err(IllFormed("Constant::VTablePointer: non or wrong vtable pointer type"))
self is VTablePointer & ty is Ptr & get(prog.vtables, self.VTablePointer.0) is Some & ty.Ptr.0 is VTablePtr & not get(prog.vtables, self.VTablePointer.0).Some.0.trait_name == ty.Ptr.0.VTablePtr.0 => Err(IllFormed("Constant::VTablePointer: non or wrong vtable pointer type"))
self is VTablePointer & ty is Ptr & get(prog.vtables, self.VTablePointer.0) is Some & ty.Ptr.0 is VTablePtr & get(prog.vtables, self.VTablePointer.0).Some.0.trait_name == ty.Ptr.0.VTablePtr.0 => Ok(())
self is FnPointer & not ty is Ptr => Err(IllFormed("Constant: value does not match type"))
self is FnPointer & ty is Ptr & not ty.Ptr.0 is FnPtr => Err(IllFormed("Constant::FnPointer: non function pointer type"))
self is FnPointer & ty is Ptr & ty.Ptr.0 is FnPtr & get(prog.functions, self.FnPointer.0) is None => Err(IllFormed("Constant::FnPointer: invalid function name"))
self is FnPointer & ty is Ptr & ty.Ptr.0 is FnPtr & get(prog.functions, self.FnPointer.0) is Some => Ok(())
self is GlobalPointer & not ty is Ptr => Err(IllFormed("Constant: value does not match type"))
self is GlobalPointer & ty is Ptr => Ok(()) ; check_wf(self.GlobalPointer.0, prog.globals)?
self is Bool & not ty is Bool => Err(IllFormed("Constant: value does not match type"))
self is Bool & ty is Bool => Ok(())
self is Int & not ty is Int => Err(IllFormed("Constant: value does not match type"))
self is Int & ty is Int & not can_represent(ty.Int.0, self.Int.0) => Err(IllFormed("Constant::Int: invalid int value"))
self is Int & ty is Int & can_represent(ty.Int.0, self.Int.0) => Ok(())
## Relocation::check_wf(self, globals)
get(globals, self.name) is None => Err(IllFormed("Relocation: invalid global name"))
get(globals, self.name) is Some & not (-1*self.offset + len(get(globals, self.name).Some.0.bytes)) >= 0 => Err(IllFormed("Relocation: offset out-of-bounds"))
get(globals, self.name) is Some & (-1*self.offset + len(get(globals, self.name).Some.0.bytes)) >= 0 => Ok(())
## ValueExpr::check_wf(self, locals, prog)
self is BinOp & self.BinOp.operator is ConstructWidePointer & not check_wf(self.BinOp.left, locals, prog).Ok.0 is Ptr => Err(IllFormed("BinOp::ConstructWidePointer: invalid left type: not a pointer"))
self is BinOp & self.BinOp.operator is ConstructWidePointer & check_wf(self.BinOp.left, locals, prog).Ok.0 is Ptr & meta_kind(check_wf(self.BinOp.left, locals, prog).Ok.0.Ptr.0) is Some => Err(IllFormed("BinOp::ConstructWidePointer: invalid left type: not a thin pointer"))
self is BinOp & self.BinOp.operator is ConstructWidePointer & check_wf(self.BinOp.left, locals, prog).Ok.0 is Ptr & meta_kind(check_wf(self.BinOp.left, locals, prog).Ok.0.Ptr.0) is None & meta_kind(self.BinOp.operator.ConstructWidePointer.0) is None & not check_wf(self.BinOp.right, locals, prog).Ok.0 == unit_type() => Err(IllFormed("BinOp::ConstructWidePointer: invalid right type: not metadata of target"))
self is BinOp & self.BinOp.operator is ConstructWidePointer & check_wf(self.BinOp.left, locals, prog).Ok.0 is Ptr & meta_kind(check_wf(self.BinOp.left, locals, prog).Ok.0.Ptr.0) is None & meta_kind(self.BinOp.operator.ConstructWidePointer.0) is None & check_wf(self.BinOp.right, locals, prog).Ok.0 == unit_type() => Ok(Ptr(self.BinOp.operator.ConstructWidePointer.0)) ; check_wf(self.BinOp.left, locals, prog)? ; check_wf(self.BinOp.right, locals, prog)?
self is BinOp & self.BinOp.operator is ConstructWidePointer & check_wf(self.BinOp.left, locals, prog).Ok.0 is Ptr & meta_kind(check_wf(self.BinOp.left, locals, prog).Ok.0.Ptr.0) is None & meta_kind(self.BinOp.operator.ConstructWidePointer.0) is ElementCount & check_wf(self.BinOp.right, locals, prog).Ok.0 is Int & check_wf(self.BinOp.right, locals, prog).Ok.0.Int.0.signed is Unsigned & not Target::PTR_SIZE == check_wf(self.BinOp.right, locals, prog).Ok.0.Int.0.size => Err(IllFormed("BinOp::ConstructWidePointer: invalid right type: not metadata of target"))
self is BinOp & self.BinOp.operator is ConstructWidePointer & check_wf(self.BinOp.left, locals, prog).Ok.0 is Ptr & meta_kind(check_wf(self.BinOp.left, locals, prog).Ok.0.Ptr.0) is None & meta_kind(self.BinOp.operator.ConstructWidePointer.0) is ElementCount & check_wf(self.BinOp.right, locals, prog).Ok.0 is Int & not check_wf(self.BinOp.right, locals, prog).Ok.0.Int.0.signed is Unsigned => Err(IllFormed("BinOp::ConstructWidePointer: invalid right type: not metadata of target"))
self is BinOp & self.BinOp.operator is ConstructWidePointer & check_wf(self.BinOp.left, locals, prog).Ok.0 is Ptr & meta_kind(check_wf(self.BinOp.left, locals, prog).Ok.0.Ptr.0) is None & meta_kind(self.BinOp.operator.ConstructWidePointer.0) is ElementCount & not check_wf(self.BinOp.right, locals, prog).Ok.0 is Int => Err(IllFormed("BinOp::ConstructWidePointer: invalid right type: not metadata of target"))
self is BinOp & self.BinOp.operator is ConstructWidePointer & check_wf(self.BinOp.left, locals, prog).Ok.0 is Ptr & meta_kind(check_wf(self.BinOp.left, locals, prog).Ok.0.Ptr.0) is None & meta_kind(self.BinOp.operator.ConstructWidePointer.0) is ElementCount & check_wf(self.BinOp.right, locals, prog).Ok.0 is Int & check_wf(self.BinOp.right, locals, prog).Ok.0.Int.0.signed is Unsigned & Target::PTR_SIZE == check_wf(self.BinOp.right, locals, prog).Ok.0.Int.0.size => Ok(Ptr(self.BinOp.operator.ConstructWidePointer.0)) ; check_wf(self.BinOp.left, locals, prog)? ; check_wf(self.BinOp.right, locals, prog)?
self is BinOp & self.BinOp.operator is ConstructWidePointer & check_wf(self.BinOp.left, locals, prog).Ok.0 is Ptr & meta_kind(check_wf(self.BinOp.left, locals, prog).Ok.0.Ptr.0) is None & meta_kind(self.BinOp.operator.ConstructWidePointer.0) is VTablePointer & check_wf(self.BinOp.right, locals, prog).Ok.0 is Ptr & check_wf(self.BinOp.right, locals, prog).Ok.0.Ptr.0 is VTablePtr & not check_wf(self.BinOp.right, locals, prog).Ok.0.Ptr.0.VTablePtr.0 == meta_kind(self.BinOp.operator.ConstructWidePointer.0).VTablePointer.0 => Err(IllFormed("BinOp::ConstructWidePointer: invalid right type: not metadata of target"))
self is BinOp & self.BinOp.operator is ConstructWidePointer & check_wf(self.BinOp.left, locals, prog).Ok.0 is Ptr & meta_kind(check_wf(self.BinOp.left, locals, prog).Ok.0.Ptr.0) is None & meta_kind(self.BinOp.operator.ConstructWidePointer.0) is VTablePointer & check_wf(self.BinOp.right, locals, prog).Ok.0 is Ptr & not check_wf(self.BinOp.right, locals, prog).Ok.0.Ptr.0 is VTablePtr => Err(IllFormed("BinOp::ConstructWidePointer: invalid right type: not metadata of target"))
self is BinOp & self.BinOp.operator is ConstructWidePointer & check_wf(self.BinOp.left, locals, prog).Ok.0 is Ptr & meta_kind(check_wf(self.BinOp.left, locals, prog).Ok.0.Ptr.0) is None & meta_kind(self.BinOp.operator.ConstructWidePointer.0) is VTablePointer & not check_wf(self.BinOp.right, locals, prog).Ok.0 is Ptr => Err(IllFormed("BinOp::ConstructWidePointer: invalid right type: not metadata of target"))
self is BinOp & self.BinOp.operator is ConstructWidePointer & check_wf(self.BinOp.left, locals, prog).Ok.0 is Ptr & meta_kind(check_wf(self.BinOp.left, locals, prog).Ok.0.Ptr.0) is None & meta_kind(self.BinOp.operator.ConstructWidePointer.0) is VTablePointer & check_wf(self.BinOp.right, locals, prog).Ok.0 is Ptr & check_wf(self.BinOp.right, locals, prog).Ok.0.Ptr.0 is VTablePtr & check_wf(self.BinOp.right, locals, prog).Ok.0.Ptr.0.VTablePtr.0 == meta_kind(self.BinOp.operator.ConstructWidePointer.0).VTablePointer.0 => Ok(Ptr(self.BinOp.operator.ConstructWidePointer.0)) ; check_wf(self.BinOp.left, locals, prog)? ; check_wf(self.BinOp.right, locals, prog)?
self is BinOp & self.BinOp.operator is PtrOffsetFrom & not check_wf(self.BinOp.left, locals, prog).Ok.0 is Ptr => Err(IllFormed("BinOp::PtrOffsetFrom: invalid left type: not a pointer"))
self is BinOp & self.BinOp.operator is PtrOffsetFrom & check_wf(self.BinOp.left, locals, prog).Ok.0 is Ptr & meta_kind(check_wf(self.BinOp.left, locals, prog).Ok.0.Ptr.0) is Some => Err(IllFormed("BinOp::PtrOffsetFrom: invalid left type: unsized pointee"))
self is BinOp & self.BinOp.operator is PtrOffsetFrom & check_wf(self.BinOp.left, locals, prog).Ok.0 is Ptr & meta_kind(check_wf(self.BinOp.left, locals, prog).Ok.0.Ptr.0) is None & not check_wf(self.BinOp.right, locals, prog).Ok.0 is Ptr => Err(IllFormed("BinOp::PtrOffsetFrom: invalid right type: not a pointer"))
self is BinOp & self.BinOp.operator is PtrOffsetFrom & check_wf(self.BinOp.left, locals, prog).Ok.0 is Ptr & meta_kind(check_wf(self.BinOp.left, locals, prog).Ok.0.Ptr.0) is None & check_wf(self.BinOp.right, locals, prog).Ok.0 is Ptr & meta_kind(check_wf(self.BinOp.right, locals, prog).Ok.0.Ptr.0) is Some => Err(IllFormed("BinOp::PtrOffsetFrom: invalid right type: unsized pointee"))
self is BinOp & self.BinOp.operator is PtrOffsetFrom & check_wf(self.BinOp.left, locals, prog).Ok.0 is Ptr & meta_kind(check_wf(self.BinOp.left, locals, prog).Ok.0.Ptr.0) is None & check_wf(self.BinOp.right, locals, prog).Ok.0 is Ptr & meta_kind(check_wf(self.BinOp.right, locals, prog).Ok.0.Ptr.0) is None => Ok(Int(IntType{signed: Signed, size: Target::PTR_SIZE})) ; check_wf(self.BinOp.left, locals, prog)? ; check_wf(self.BinOp.right, locals, prog)?
self is BinOp & self.BinOp.operator is PtrOffset & not check_wf(self.BinOp.left, locals, prog).Ok.0 is Ptr => Err(IllFormed("BinOp::PtrOffset: invalid left type: not a pointer"))
self is BinOp & self.BinOp.operator is PtrOffset & check_wf(self.BinOp.left, locals, prog).Ok.0 is Ptr & meta_kind(check_wf(self.BinOp.left, locals, prog).Ok.0.Ptr.0) is Some => Err(IllFormed("BinOp::PtrOffset: invalid left type: unsized pointee"))
self is BinOp & self.BinOp.operator is PtrOffset & check_wf(self.BinOp.left, locals, prog).Ok.0 is Ptr & meta_kind(check_wf(self.BinOp.left, locals, prog).Ok.0.Ptr.0) is None & not check_wf(self.BinOp.right, locals, prog).Ok.0 is Int => Err(IllFormed("BinOp::PtrOffset: invalid right type"))
self is BinOp & self.BinOp.operator is PtrOffset & check_wf(self.BinOp.left, locals, prog).Ok.0 is Ptr & meta_kind(check_wf(self.BinOp.left, locals, prog).Ok.0.Ptr.0) is None & check_wf(self.BinOp.right, locals, prog).Ok.0 is Int => Ok(check_wf(self.BinOp.left, locals, prog).Ok.0) ; check_wf(self.BinOp.left, locals, prog)? ; check_wf(self.BinOp.right, locals, prog)?
self is BinOp & self.BinOp.operator is Rel & not check_wf(self.BinOp.left, locals, prog).Ok.0 is Int & not check_wf(self.BinOp.left, locals, prog).Ok.0 is Bool & not check_wf(self.BinOp.left, locals, prog).Ok.0 is Ptr => Err(IllFormed("BinOp::Rel: invalid left type"))
self is BinOp & self.BinOp.operator is Rel & check_wf(self.BinOp.left, locals, prog).Ok.0 is Ptr & not check_wf(self.BinOp.left, locals, prog).Ok.0 == check_wf(self.BinOp.right, locals, prog).Ok.0 => Err(IllFormed("BinOp::Rel: invalid right type"))
self is BinOp & self.BinOp.operator is Rel & check_wf(self.BinOp.left, locals, prog).Ok.0 is Ptr & check_wf(self.BinOp.left, locals, prog).Ok.0 == check_wf(self.BinOp.right, locals, prog).Ok.0 & not self.BinOp.operator.Rel.0 is Cmp => Ok(Bool) ; check_wf(self.BinOp.left, locals, prog)? ; check_wf(self.BinOp.right, locals, prog)?
self is BinOp & self.BinOp.operator is Rel & check_wf(self.BinOp.left, locals, prog).Ok.0 is Ptr & check_wf(self.BinOp.left, locals, prog).Ok.0 == check_wf(self.BinOp.right, locals, prog).Ok.0 & self.BinOp.operator.Rel.0 is Cmp => Ok(Int(IntType{signed: Signed, size: 1})) ; check_wf(self.BinOp.left, locals, prog)? ; check_wf(self.BinOp.right, locals, prog)?
self is BinOp & self.BinOp.operator is Rel & check_wf(self.BinOp.left, locals, prog).Ok.0 is Bool & not check_wf(self.BinOp.left, locals, prog).Ok.0 == check_wf(self.BinOp.right, locals, prog).Ok.0 => Err(IllFormed("BinOp::Rel: invalid right type"))
self is BinOp & self.BinOp.operator is Rel & check_wf(self.BinOp.left, locals, prog).Ok.0 is Bool & check_wf(self.BinOp.left, locals, prog).Ok.0 == check_wf(self.BinOp.right, locals, prog).Ok.0 & not self.BinOp.operator.Rel.0 is Cmp => Ok(Bool) ; check_wf(self.BinOp.left, locals, prog)? ; check_wf(self.BinOp.right, locals, prog)?
self is BinOp & self.BinOp.operator is Rel & check_wf(self.BinOp.left, locals, prog).Ok.0 is Bool & check_wf(self.BinOp.left, locals, prog).Ok.0 == check_wf(self.BinOp.right, locals, prog).Ok.0 & self.BinOp.operator.Rel.0 is Cmp => Ok(Int(IntType{signed: Signed, size: 1})) ; check_wf(self.BinOp.left, locals, prog)? ; check_wf(self.BinOp.right, locals, prog)?
self is BinOp & self.BinOp.operator is Rel & check_wf(self.BinOp.left, locals, prog).Ok.0 is Int & not check_wf(self.BinOp.left, locals, prog).Ok.0 == check_wf(self.BinOp.right, locals, prog).Ok.0 => Err(IllFormed("BinOp::Rel: invalid right type"))
self is BinOp & self.BinOp.operator is Rel & check_wf(self.BinOp.left, locals, prog).Ok.0 is Int & check_wf(self.BinOp.left, locals, prog).Ok.0 == check_wf(self.BinOp.right, locals, prog).Ok.0 & not self.BinOp.operator.Rel.0 is Cmp => Ok(Bool) ; check_wf(self.BinOp.left, locals, prog)? ; check_wf(self.BinOp.right, locals, prog)?
self is BinOp & self.BinOp.operator is Rel & check_wf(self.BinOp.left, locals, prog).Ok.0 is Int & check_wf(self.BinOp.left, locals, prog).Ok.0 == check_wf(self.BinOp.right, locals, prog).Ok.0 & self.BinOp.operator.Rel.0 is Cmp => Ok(Int(IntType{signed: Signed, size: 1})) ; check_wf(self.BinOp.left, locals, prog)? ; check_wf(self.BinOp.right, locals, prog)?
self is BinOp & self.BinOp.operator is IntWithOverflow & not check_wf(self.BinOp.left, locals, prog).Ok.0 is Int => Err(IllFormed("BinOp::IntWithOverflow: invalid left type"))
self is BinOp & self.BinOp.operator is IntWithOverflow & check_wf(self.BinOp.left, locals, prog).Ok.0 is Int & not check_wf(self.BinOp.right, locals, prog).Ok.0 is Int => Err(IllFormed("BinOp::IntWithOverflow: invalid right type"))
self is BinOp & self.BinOp.operator is IntWithOverflow & check_wf(self.BinOp.left, locals, prog).Ok.0 is Int & check_wf(self.BinOp.right, locals, prog).Ok.0 is Int & not check_wf(self.BinOp.left, locals, prog).Ok.0.Int.0 == check_wf(self.BinOp.right, locals, prog).Ok.0.Int.0 => Err(IllFormed("BinOp::IntWithOverflow: invalid right type"))
self is BinOp & self.BinOp.operator is IntWithOverflow & check_wf(self.BinOp.left, locals, prog).Ok.0 is Int & check_wf(self.BinOp.right, locals, prog).Ok.0 is Int & check_wf(self.BinOp.left, locals, prog).Ok.0.Int.0 == check_wf(self.BinOp.right, locals, prog).Ok.0.Int.0 => Ok(with_overflow(check_wf(self.BinOp.left, locals, prog).Ok.0.Int.0)) ; check_wf(self.BinOp.left, locals, prog)? ; check_wf(self.BinOp.right, locals, prog)?
self is BinOp & self.BinOp.operator is Int & not check_wf(self.BinOp.left, locals, prog).Ok.0 is Int => Err(IllFormed("BinOp::Int: invalid left type"))
self is BinOp & self.BinOp.operator is Int & check_wf(self.BinOp.left, locals, prog).Ok.0 is Int & not check_wf(self.BinOp.right, locals, prog).Ok.0 is Int => Err(IllFormed("BinOp::Int: invalid right type"))
self is BinOp & self.BinOp.operator is Int & check_wf(self.BinOp.left, locals, prog).Ok.0 is Int & check_wf(self.BinOp.right, locals, prog).Ok.0 is Int & not self.BinOp.operator.Int.0 is Shl & not self.BinOp.operator.Int.0 is ShlUnchecked & not self.BinOp.operator.Int.0 is Shr & not self.BinOp.operator.Int.0 is ShrUnchecked & not check_wf(self.BinOp.left, locals, prog).Ok.0.Int.0 == check_wf(self.BinOp.right, locals, prog).Ok.0.Int.0 => Err(IllFormed("BinOp:Int: right and left type are not equal"))
self is BinOp & self.BinOp.operator is Int & check_wf(self.BinOp.left, locals, prog).Ok.0 is Int & check_wf(self.BinOp.right, locals, prog).Ok.0 is Int & not self.BinOp.operator.Int.0 is Shl & not self.BinOp.operator.Int.0 is ShlUnchecked & not self.BinOp.operator.Int.0 is Shr & not self.BinOp.operator.Int.0 is ShrUnchecked & check_wf(self.BinOp.left, locals, prog).Ok.0.Int.0 == check_wf(self.BinOp.right, locals, prog).Ok.0.Int.0 => Ok(Int(check_wf(self.BinOp.left, locals, prog).Ok.0.Int.0)) ; check_wf(self.BinOp.left, locals, prog)? ; check_wf(self.BinOp.right, locals, prog)?
self is BinOp & self.BinOp.operator is Int & check_wf(self.BinOp.left, locals, prog).Ok.0 is Int & check_wf(self.BinOp.right, locals, prog).Ok.0 is Int & self.BinOp.operator.Int.0 is ShrUnchecked => Ok(Int(check_wf(self.BinOp.left, locals, prog).Ok.0.Int.0)) ; check_wf(self.BinOp.left, locals, prog)? ; check_wf(self.BinOp.right, locals, prog)?
self is BinOp & self.BinOp.operator is Int & check_wf(self.BinOp.left, locals, prog).Ok.0 is Int & check_wf(self.BinOp.right, locals, prog).Ok.0 is Int & self.BinOp.operator.Int.0 is Shr => Ok(Int(check_wf(self.BinOp.left, locals, prog).Ok.0.Int.0)) ; check_wf(self.BinOp.left, locals, prog)? ; check_wf(self.BinOp.right, locals, prog)?
self is BinOp & self.BinOp.operator is Int & check_wf(self.BinOp.left, locals, prog).Ok.0 is Int & check_wf(self.BinOp.right, locals, prog).Ok.0 is Int & self.BinOp.operator.Int.0 is ShlUnchecked => Ok(Int(check_wf(self.BinOp.left, locals, prog).Ok.0.Int.0)) ; check_wf(self.BinOp.left, locals, prog)? ; check_wf(self.BinOp.right, locals, prog)?
self is BinOp & self.BinOp.operator is Int & check_wf(self.BinOp.left, locals, prog).Ok.0 is Int & check_wf(self.BinOp.right, locals, prog).Ok.0 is Int & self.BinOp.operator.Int.0 is Shl => Ok(Int(check_wf(self.BinOp.left, locals, prog).Ok.0.Int.0)) ; check_wf(self.BinOp.left, locals, prog)? ; check_wf(self.BinOp.right, locals, prog)?
self is UnOp & self.UnOp.operator is VTableMethodLookup & not check_wf(self.UnOp.operand, locals, prog).Ok.0 is Ptr => Err(IllFormed("UnOp::VTableMethodLookup: invalid operand: not a vtable pointer"))
self is UnOp & self.UnOp.operator is VTableMethodLookup & check_wf(self.UnOp.operand, locals, prog).Ok.0 is Ptr & not check_wf(self.UnOp.operand, locals, prog).Ok.0.Ptr.0 is VTablePtr => Err(IllFormed("UnOp::VTableMethodLookup: invalid operand: not a vtable pointer"))
self is UnOp & self.UnOp.operator is VTableMethodLookup & check_wf(self.UnOp.operand, locals, prog).Ok.0 is Ptr & check_wf(self.UnOp.operand, locals, prog).Ok.0.Ptr.0 is VTablePtr & not contains(get(prog.traits, check_wf(self.UnOp.operand, locals, prog).Ok.0.Ptr.0.VTablePtr.0).Some.0, self.UnOp.operator.VTableMethodLookup.0) => Err(IllFormed("UnOp::VTableMethodLookup: invalid operand: method doesn't exist in trait"))
self is UnOp & self.UnOp.operator is VTableMethodLookup & check_wf(self.UnOp.operand, locals, prog).Ok.0 is Ptr & check_wf(self.UnOp.operand, locals, prog).Ok.0.Ptr.0 is VTablePtr & contains(get(prog.traits, check_wf(self.UnOp.operand, locals, prog).Ok.0.Ptr.0.VTablePtr.0).Some.0, self.UnOp.operator.VTableMethodLookup.0) => Ok(Ptr(FnPtr)) ; check_wf(self.UnOp.operand, locals, prog)?
self is UnOp & self.UnOp.operator is ComputeAlign & meta_kind(self.UnOp.operator.ComputeAlign.0) is None & not check_wf(self.UnOp.operand, locals, prog).Ok.0 == unit_type() => Err(IllFormed("UnOp::ComputeSize|ComputeAlign: invalid operand type: not metadata of type"))
self is UnOp & self.UnOp.operator is ComputeAlign & meta_kind(self.UnOp.operator.ComputeAlign.0) is None & check_wf(self.UnOp.operand, locals, prog).Ok.0 == unit_type() => Ok(Int(IntType{signed: Unsigned, size: Target::PTR_SIZE})) ; check_wf(self.UnOp.operand, locals, prog)? ; check_wf(self.UnOp.operator.ComputeAlign.0, prog)?
self is UnOp & self.UnOp.operator is ComputeAlign & meta_kind(self.UnOp.operator.ComputeAlign.0) is ElementCount & check_wf(self.UnOp.operand, locals, prog).Ok.0 is Int & check_wf(self.UnOp.operand, locals, prog).Ok.0.Int.0.signed is Unsigned & not Target::PTR_SIZE == check_wf(self.UnOp.operand, locals, prog).Ok.0.Int.0.size => Err(IllFormed("UnOp::ComputeSize|ComputeAlign: invalid operand type: not metadata of type"))
self is UnOp & self.UnOp.operator is ComputeAlign & meta_kind(self.UnOp.operator.ComputeAlign.0) is ElementCount & check_wf(self.UnOp.operand, locals, prog).Ok.0 is Int & not check_wf(self.UnOp.operand, locals, prog).Ok.0.Int.0.signed is Unsigned => Err(IllFormed("UnOp::ComputeSize|ComputeAlign: invalid operand type: not metadata of type"))
self is UnOp & self.UnOp.operator is ComputeAlign & meta_kind(self.UnOp.operator.ComputeAlign.0) is ElementCount & not check_wf(self.UnOp.operand, locals, prog).Ok.0 is Int => Err(IllFormed("UnOp::ComputeSize|ComputeAlign: invalid operand type: not metadata of type"))
self is UnOp & self.UnOp.operator is ComputeAlign & meta_kind(self.UnOp.operator.ComputeAlign.0) is ElementCount & check_wf(self.UnOp.operand, locals, prog).Ok.0 is Int & check_wf(self.UnOp.operand, locals, prog).Ok.0.Int.0.signed is Unsigned & Target::PTR_SIZE == check_wf(self.UnOp.operand, locals, prog).Ok.0.Int.0.size => Ok(Int(IntType{signed: Unsigned, size: Target::PTR_SIZE})) ; check_wf(self.UnOp.operand, locals, prog)? ; check_wf(self.UnOp.operator.ComputeAlign.0, prog)?
self is UnOp & self.UnOp.operator is ComputeAlign & meta_kind(self.UnOp.operator.ComputeAlign.0) is VTablePointer & check_wf(self.UnOp.operand, locals, prog).Ok.0 is Ptr & check_wf(self.UnOp.operand, locals, prog).Ok.0.Ptr.0 is VTablePtr & not check_wf(self.UnOp.operand, locals, prog).Ok.0.Ptr.0.VTablePtr.0 == meta_kind(self.UnOp.operator.ComputeAlign.0).VTablePointer.0 => Err(IllFormed("UnOp::ComputeSize|ComputeAlign: invalid operand type: not metadata of type"))
self is UnOp & self.UnOp.operator is ComputeAlign & meta_kind(self.UnOp.operator.ComputeAlign.0) is VTablePointer & check_wf(self.UnOp.operand, locals, prog).Ok.0 is Ptr & not check_wf(self.UnOp.operand, locals, prog).Ok.0.Ptr.0 is VTablePtr => Err(IllFormed("UnOp::ComputeSize|ComputeAlign: invalid operand type: not metadata of type"))
self is UnOp & self.UnOp.operator is ComputeAlign & meta_kind(self.UnOp.operator.ComputeAlign.0) is VTablePointer & not check_wf(self.UnOp.operand, locals, prog).Ok.0 is Ptr => Err(IllFormed("UnOp::ComputeSize|ComputeAlign: invalid operand type: not metadata of type"))
self is UnOp & self.UnOp.operator is ComputeAlign & meta_kind(self.UnOp.operator.ComputeAlign.0) is VTablePointer & check_wf(self.UnOp.operand, locals, prog).Ok.0 is Ptr & check_wf(self.UnOp.operand, locals, prog).Ok.0.Ptr.0 is VTablePtr & check_wf(self.UnOp.operand, locals, prog).Ok.0.Ptr.0.VTablePtr.0 == meta_kind(self.UnOp.operator.ComputeAlign.0).VTablePointer.0 => Ok(Int(IntType{signed: Unsigned, size: Target::PTR_SIZE})) ; check_wf(self.UnOp.operand, locals, prog)? ; check_wf(self.UnOp.operator.ComputeAlign.0, prog)?
self is UnOp & self.UnOp.operator is ComputeSize & meta_kind(self.UnOp.operator.ComputeSize.0) is None & not check_wf(self.UnOp.operand, locals, prog).Ok.0 == unit_type() => Err(IllFormed("UnOp::ComputeSize|ComputeAlign: invalid operand type: not metadata of type"))
self is UnOp & self.UnOp.operator is ComputeSize & meta_kind(self.UnOp.operator.ComputeSize.0) is None & check_wf(self.UnOp.operand, locals, prog).Ok.0 == unit_type() => Ok(Int(IntType{signed: Unsigned, size: Target::PTR_SIZE})) ; check_wf(self.UnOp.operand, locals, prog)? ; check_wf(self.UnOp.operator.ComputeSize.0, prog)?
self is UnOp & self.UnOp.operator is ComputeSize & meta_kind(self.UnOp.operator.ComputeSize.0) is ElementCount & check_wf(self.UnOp.operand, locals, prog).Ok.0 is Int & check_wf(self.UnOp.operand, locals, prog).Ok.0.Int.0.signed is Unsigned & not Target::PTR_SIZE == check_wf(self.UnOp.operand, locals, prog).Ok.0.Int.0.size => Err(IllFormed("UnOp::ComputeSize|ComputeAlign: invalid operand type: not metadata of type"))
self is UnOp & self.UnOp.operator is ComputeSize & meta_kind(self.UnOp.operator.ComputeSize.0) is ElementCount & check_wf(self.UnOp.operand, locals, prog).Ok.0 is Int & not check_wf(self.UnOp.operand, locals, prog).Ok.0.Int.0.signed is Unsigned => Err(IllFormed("UnOp::ComputeSize|ComputeAlign: invalid operand type: not metadata of type"))
self is UnOp & self.UnOp.operator is ComputeSize & meta_kind(self.UnOp.operator.ComputeSize.0) is ElementCount & not check_wf(self.UnOp.operand, locals, prog).Ok.0 is Int => Err(IllFormed("UnOp::ComputeSize|ComputeAlign: invalid operand type: not metadata of type"))
self is UnOp & self.UnOp.operator is ComputeSize & meta_kind(self.UnOp.operator.ComputeSize.0) is ElementCount & check_wf(self.UnOp.operand, locals, prog).Ok.0 is Int & check_wf(self.UnOp.operand, locals, prog).Ok.0.Int.0.signed is Unsigned & Target::PTR_SIZE == check_wf(self.UnOp.operand, locals, prog).Ok.0.Int.0.size => Ok(Int(IntType{signed: Unsigned, size: Target::PTR_SIZE})) ; check_wf(self.UnOp.operand, locals, prog)? ; check_wf(self.UnOp.operator.ComputeSize.0, prog)?
self is UnOp & self.UnOp.operator is ComputeSize & meta_kind(self.UnOp.operator.ComputeSize.0) is VTablePointer & check_wf(self.UnOp.operand, locals, prog).Ok.0 is Ptr & check_wf(self.UnOp.operand, locals, prog).Ok.0.Ptr.0 is VTablePtr & not check_wf(self.UnOp.operand, locals, prog).Ok.0.Ptr.0.VTablePtr.0 == meta_kind(self.UnOp.operator.ComputeSize.0).VTablePointer.0 => Err(IllFormed("UnOp::ComputeSize|ComputeAlign: invalid operand type: not metadata of type"))
self is UnOp & self.UnOp.operator is ComputeSize & meta_kind(self.UnOp.operator.ComputeSize.0) is VTablePointer & check_wf(self.UnOp.operand, locals, prog).Ok.0 is Ptr & not check_wf(self.UnOp.operand, locals, prog).Ok.0.Ptr.0 is VTablePtr => Err(IllFormed("UnOp::ComputeSize|ComputeAlign: invalid operand type: not metadata of type"))
self is UnOp & self.UnOp.operator is ComputeSize & meta_kind(self.UnOp.operator.ComputeSize.0) is VTablePointer & not check_wf(self.UnOp.operand, locals, prog).Ok.0 is Ptr => Err(IllFormed("UnOp::ComputeSize|ComputeAlign: invalid operand type: not metadata of type"))
self is UnOp & self.UnOp.operator is ComputeSize & meta_kind(self.UnOp.operator.ComputeSize.0) is VTablePointer & check_wf(self.UnOp.operand, locals, prog).Ok.0 is Ptr & check_wf(self.UnOp.operand, locals, prog).Ok.0.Ptr.0 is VTablePtr & check_wf(self.UnOp.operand, locals, prog).Ok.0.Ptr.0.VTablePtr.0 == meta_kind(self.UnOp.operator.ComputeSize.0).VTablePointer.0 => Ok(Int(IntType{signed: Unsigned, size: Target::PTR_SIZE})) ; check_wf(self.UnOp.operand, locals, prog)? ; check_wf(self.UnOp.operator.ComputeSize.0, prog)?
self is UnOp & self.UnOp.operator is GetMetadata & not check_wf(self.UnOp.operand, locals, prog).Ok.0 is Ptr => Err(IllFormed("UnOp::GetMetadata: invalid operand: not a pointer"))
self is UnOp & self.UnOp.operator is GetMetadata & check_wf(self.UnOp.operand, locals, prog).Ok.0 is Ptr & meta_kind(check_wf(self.UnOp.operand, locals, prog).Ok.0.Ptr.0) is None => Ok(unit_type()) ; check_wf(self.UnOp.operand, locals, prog)?
self is UnOp & self.UnOp.operator is GetMetadata & check_wf(self.UnOp.operand, locals, prog).Ok.0 is Ptr & meta_kind(check_wf(self.UnOp.operand, locals, prog).Ok.0.Ptr.0) is ElementCount => Ok(Int(IntType{signed: Unsigned, size: Target::PTR_SIZE})) ; check_wf(self.UnOp.operand, locals, prog)?
self is UnOp & self.UnOp.operator is GetMetadata & check_wf(self.UnOp.operand, locals, prog).Ok.0 is Ptr & meta_kind(check_wf(self.UnOp.operand, locals, prog).Ok.0.Ptr.0) is VTablePointer => Ok(Ptr(VTablePtr(meta_kind(check_wf(self.UnOp.operand, locals, prog).Ok.0.Ptr.0).VTablePointer.0))) ; check_wf(self.UnOp.operand, locals, prog)?
self is UnOp & self.UnOp.operator is GetThinPointer & not check_wf(self.UnOp.operand, locals, prog).Ok.0 is Ptr => Err(IllFormed("UnOp::GetThinPointer: invalid operand: not a pointer"))
self is UnOp & self.UnOp.operator is GetThinPointer & check_wf(self.UnOp.operand, locals, prog).Ok.0 is Ptr => Ok(Ptr(Raw{meta_kind: None})) ; check_wf(self.UnOp.operand, locals, prog)?
self is UnOp & self.UnOp.operator is Cast & self.UnOp.operator.Cast.0 is Transmute & layout(check_wf(self.UnOp.operand, locals, prog).Ok.0) is Sized & layout(self.UnOp.operator.Cast.0.Transmute.0) is Sized => Ok(self.UnOp.operator.Cast.0.Transmute.0) ; check_wf(self.UnOp.operand, locals, prog)?
self is UnOp & self.UnOp.operator is Cast & self.UnOp.operator.Cast.0 is Transmute & layout(check_wf(self.UnOp.operand, locals, prog).Ok.0) is Sized & not layout(self.UnOp.operator.Cast.0.Transmute.0) is Sized => Err(IllFormed("Cast::Transmute: unsized target type"))
self is UnOp & self.UnOp.operator is Cast & self.UnOp.operator.Cast.0 is Transmute & not layout(check_wf(self.UnOp.operand, locals, prog).Ok.0) is Sized => Err(IllFormed("Cast::Transmute: unsized source type"))
self is UnOp & self.UnOp.operator is Cast & self.UnOp.operator.Cast.0 is IntToInt & not check_wf(self.UnOp.operand, locals, prog).Ok.0 is Int => Err(IllFormed("Cast::IntToInt: invalid operand"))
self is UnOp & self.UnOp.operator is Cast & self.UnOp.operator.Cast.0 is IntToInt & check_wf(self.UnOp.operand, locals, prog).Ok.0 is Int => Ok(Int(self.UnOp.operator.Cast.0.IntToInt.0)) ; check_wf(self.UnOp.operand, locals, prog)?
self is UnOp & self.UnOp.operator is Int & not check_wf(self.UnOp.operand, locals, prog).Ok.0 is Int => Err(IllFormed("UnOp::Int: invalid operand"))
self is UnOp & self.UnOp.operator is Int & check_wf(self.UnOp.operand, locals, prog).Ok.0 is Int & not self.UnOp.operator.Int.0 is CountOnes => Ok(Int(check_wf(self.UnOp.operand, locals, prog).Ok.0.Int.0)) ; check_wf(self.UnOp.operand, locals, prog)?
self is UnOp & self.UnOp.operator is Int & check_wf(self.UnOp.operand, locals, prog).Ok.0 is Int & self.UnOp.operator.Int.0 is CountOnes => Ok(Int(IntType{signed: Unsigned, size: 4})) ; check_wf(self.UnOp.operand, locals, prog)?
self is AddrOf & not meta_kind(check_wf(self.AddrOf.target, locals, prog).Ok.0) == meta_kind(self.AddrOf.ptr_ty) => Err(IllFormed("ValueExpr::AddrOf: mismatched metadata kind"))
self is AddrOf & meta_kind(check_wf(self.AddrOf.target, locals, prog).Ok.0) == meta_kind(self.AddrOf.ptr_ty) => Ok(Ptr(self.AddrOf.ptr_ty)) ; check_wf(self.AddrOf.ptr_ty, prog)? ; check_wf(self.AddrOf.target, locals, prog)?
self is Load & layout(check_wf(self.Load.source, locals, prog).Ok.0) is Sized => Ok(check_wf(self.Load.source, locals, prog).Ok.0) ; check_wf(self.Load.source, locals, prog)?
self is Load & not layout(check_wf(self.Load.source, locals, prog).Ok.0) is Sized => Err(IllFormed("ValueExpr::Load: unsized value type"))
self is GetDiscriminant & not check_wf(self.GetDiscriminant.place, locals, prog).Ok.0 is Enum => Err(IllFormed("ValueExpr::GetDiscriminant: invalid type"))
self is GetDiscriminant & check_wf(self.GetDiscriminant.place, locals, prog).Ok.0 is Enum => Ok(Int(check_wf(self.GetDiscriminant.place, locals, prog).Ok.0.Enum.discriminant_ty)) ; check_wf(self.GetDiscriminant.place, locals, prog)?
self is Variant & not self.Variant.enum_ty is Enum => Err(IllFormed("ValueExpr::Variant: invalid type"))
self is Variant & self.Variant.enum_ty is Enum & get(self.Variant.enum_ty.Enum.variants, self.Variant.discriminant) is None => Err(IllFormed("ValueExpr::Variant: invalid discriminant"))
self is Variant & self.Variant.enum_ty is Enum & get(self.Variant.enum_ty.Enum.variants, self.Variant.discriminant) is Some & not check_wf(self.Variant.data, locals, prog).Ok.0 == get(self.Variant.enum_ty.Enum.variants, self.Variant.discriminant).Some.0.ty => Err(IllFormed("ValueExpr::Variant: invalid type"))
self is Variant & self.Variant.enum_ty is Enum & get(self.Variant.enum_ty.Enum.variants, self.Variant.discriminant) is Some & check_wf(self.Variant.data, locals, prog).Ok.0 == get(self.Variant.enum_ty.Enum.variants, self.Variant.discriminant).Some.0.ty => Ok(self.Variant.enum_ty) ; check_wf(self.Variant.enum_ty, prog)? ; check_wf(self.Variant.data, locals, prog)?
self is Union & not self.Union.union_ty is Union => Err(IllFormed("ValueExpr::Union: invalid type"))
self is Union & self.Union.union_ty is Union & not (-1*self.Union.field + len(self.Union.union_ty.Union.fields) + -1) >= 0 => Err(IllFormed("ValueExpr::Union: invalid field length"))
self is Union & self.Union.union_ty is Union & (-1*self.Union.field + len(self.Union.union_ty.Union.fields) + -1) >= 0 & not check_wf(self.Union.expr, locals, prog).Ok.0 == self.Union.union_ty.Union.fields[self.Union.field].1 => Err(IllFormed("ValueExpr::Union: invalid field type"))
self is Union & self.Union.union_ty is Union & (-1*self.Union.field + len(self.Union.union_ty.Union.fields) + -1) >= 0 & check_wf(self.Union.expr, locals, prog).Ok.0 == self.Union.union_ty.Union.fields[self.Union.field].1 => Ok(self.Union.union_ty) ; check_wf(self.Union.union_ty, prog)? ; check_wf(self.Union.expr, locals, prog)?
self is Tuple & not self.Tuple.1 is Tuple & not self.Tuple.1 is Array => Err(IllFormed("ValueExpr::Tuple: expression does not match type"))
self is Tuple & self.Tuple.1 is Array & not len(self.Tuple.0) == self.Tuple.1.Array.count => Err(IllFormed("ValueExpr::Tuple: invalid number of array elements"))
self is Tuple & self.Tuple.1 is Array & len(self.Tuple.0) == self.Tuple.1.Array.count & forall self.Tuple.0: check_wf(each(self.Tuple.0), locals, prog) is Ok && check_wf(each(self.Tuple.0), locals, prog).Ok.0 == self.Tuple.1.Array.elem => Ok(self.Tuple.1) ; check_wf(self.Tuple.1, prog)? ; for all self.Tuple.0: check_wf(each(self.Tuple.0), locals, prog) is Ok && check_wf(each(self.Tuple.0), locals, prog).Ok.0 == self.Tuple.1.Array.elem
self is Tuple & self.Tuple.1 is Array & len(self.Tuple.0) == self.Tuple.1.Array.count & not check_wf(each(self.Tuple.0), locals, prog).Ok.0 == self.Tuple.1.Array.elem => Err(IllFormed("ValueExpr::Tuple: invalid array element type"))
self is Tuple & self.Tuple.1 is Tuple & self.Tuple.1.Tuple.unsized_field is Some => Err(IllFormed("ValueExpr::Tuple: constructing an unsized tuple value"))
self is Tuple & self.Tuple.1 is Tuple & self.Tuple.1.Tuple.unsized_field is None & not len(self.Tuple.0) == len(self.Tuple.1.Tuple.sized_fields) => Err(IllFormed("ValueExpr::Tuple: invalid number of tuple fields"))
self is Tuple & self.Tuple.1 is Tuple & self.Tuple.1.Tuple.unsized_field is None & len(self.Tuple.0) == len(self.Tuple.1.Tuple.sized_fields) & forall zip(self.Tuple.0, self.Tuple.1.Tuple.sized_fields): check_wf(each(self.Tuple.0), locals, prog) is Ok && check_wf(each(self.Tuple.0), locals, prog).Ok.0 == each(self.Tuple.1.Tuple.sized_fields).1 => Ok(self.Tuple.1) ; check_wf(self.Tuple.1, prog)? ; for all zip(self.Tuple.0, self.Tuple.1.Tuple.sized_fields): check_wf(each(self.Tuple.0), locals, prog) is Ok && check_wf(each(self.Tuple.0), locals, prog).Ok.0 == each(self.Tuple.1.Tuple.sized_fields).1
self is Tuple & self.Tuple.1 is Tuple & self.Tuple.1.Tuple.unsized_field is None & len(self.Tuple.0) == len(self.Tuple.1.Tuple.sized_fields) & not check_wf(each(self.Tuple.0), locals, prog).Ok.0 == each(self.Tuple.1.Tuple.sized_fields).1 => Err(IllFormed("ValueExpr::Tuple: invalid tuple field type"))
self is Constant => Ok(self.Constant.1) ; check_wf(self.Constant.1, prog)? ; check_wf(self.Constant.0, self.Constant.1, prog)?
## PlaceExpr::check_wf(self, locals, prog)
self is Downcast & not check_wf(self.Downcast.root, locals, prog).Ok.0 is Enum => Err(IllFormed("PlaceExpr::Downcast: invalid root type"))
self is Downcast & check_wf(self.Downcast.root, locals, prog).Ok.0 is Enum & get(check_wf(self.Downcast.root, locals, prog).Ok.0.Enum.variants, self.Downcast.discriminant) is None => Err(IllFormed("PlaceExpr::Downcast: invalid discriminant"))
self is Downcast & check_wf(self.Downcast.root, locals, prog).Ok.0 is Enum & get(check_wf(self.Downcast.root, locals, prog).Ok.0.Enum.variants, self.Downcast.discriminant) is Some => Ok(get(check_wf(self.Downcast.root, locals, prog).Ok.0.Enum.variants, self.Downcast.discriminant).Some.0.ty) ; check_wf(self.Downcast.root, locals, prog)?
self is Index & not check_wf(self.Index.index, locals, prog).Ok.0 is Int => Err(IllFormed("PlaceExpr::Index: invalid index type"))
self is Index & check_wf(self.Index.index, locals, prog).Ok.0 is Int & not check_wf(self.Index.root, locals, prog).Ok.0 is Array & not check_wf(self.Index.root, locals, prog).Ok.0 is Slice => Err(IllFormed("PlaceExpr::Index: expression type is not indexable"))
self is Index & check_wf(self.Index.index, locals, prog).Ok.0 is Int & check_wf(self.Index.root, locals, prog).Ok.0 is Slice => Ok(check_wf(self.Index.root, locals, prog).Ok.0.Slice.elem) ; check_wf(self.Index.root, locals, prog)? ; check_wf(self.Index.index, locals, prog)?
self is Index & check_wf(self.Index.index, locals, prog).Ok.0 is Int & check_wf(self.Index.root, locals, prog).Ok.0 is Array => Ok(check_wf(self.Index.root, locals, prog).Ok.0.Array.elem) ; check_wf(self.Index.root, locals, prog)? ; check_wf(self.Index.index, locals, prog)?
self is Field & not check_wf(self.Field.root, locals, prog).Ok.0 is Tuple & not check_wf(self.Field.root, locals, prog).Ok.0 is Union => Err(IllFormed("PlaceExpr::Field: expression does not match type"))
self is Field & check_wf(self.Field.root, locals, prog).Ok.0 is Union & self.Field.field >= 0 & not (-1*self.Field.field + len(check_wf(self.Field.root, locals, prog).Ok.0.Union.fields) + -1) >= 0 => Err(IllFormed("PlaceExpr::Field: invalid field"))
self is Field & check_wf(self.Field.root, locals, prog).Ok.0 is Union & not self.Field.field >= 0 => Err(IllFormed("PlaceExpr::Field: invalid field"))
self is Field & check_wf(self.Field.root, locals, prog).Ok.0 is Union & self.Field.field >= 0 & (-1*self.Field.field + len(check_wf(self.Field.root, locals, prog).Ok.0.Union.fields) + -1) >= 0 => Ok(check_wf(self.Field.root, locals, prog).Ok.0.Union.fields[self.Field.field].1) ; check_wf(self.Field.root, locals, prog)?
self is Field & check_wf(self.Field.root, locals, prog).Ok.0 is Tuple & self.Field.field >= 0 & (-1*self.Field.field + len(check_wf(self.Field.root, locals, prog).Ok.0.Tuple.sized_fields) + -1) >= 0 => Ok(check_wf(self.Field.root, locals, prog).Ok.0.Tuple.sized_fields[self.Field.field].1) ; check_wf(self.Field.root, locals, prog)?
self is Field & check_wf(self.Field.root, locals, prog).Ok.0 is Tuple & self.Field.field >= 0 & not (-1*self.Field.field + len(check_wf(self.Field.root, locals, prog).Ok.0.Tuple.sized_fields) + -1) >= 0 & len(check_wf(self.Field.root, locals, prog).Ok.0.Tuple.sized_fields) == self.Field.field & check_wf(self.Field.root, locals, prog).Ok.0.Tuple.unsized_field is None => Err(IllFormed("PlaceExpr::Field: invalid field"))
self is Field & check_wf(self.Field.root, locals, prog).Ok.0 is Tuple & self.Field.field >= 0 & not (-1*self.Field.field + len(check_wf(self.Field.root, locals, prog).Ok.0.Tuple.sized_fields) + -1) >= 0 & len(check_wf(self.Field.root, locals, prog).Ok.0.Tuple.sized_fields) == self.Field.field & check_wf(self.Field.root, locals, prog).Ok.0.Tuple.unsized_field is Some => Ok(check_wf(self.Field.root, locals, prog).Ok.0.Tuple.unsized_field.Some.0) ; check_wf(self.Field.root, locals, prog)?
self is Field & check_wf(self.Field.root, locals, prog).Ok.0 is Tuple & self.Field.field >= 0 & not (-1*self.Field.field + len(check_wf(self.Field.root, locals, prog).Ok.0.Tuple.sized_fields) + -1) >= 0 & not len(check_wf(self.Field.root, locals, prog).Ok.0.Tuple.sized_fields) == self.Field.field => Err(IllFormed("PlaceExpr::Field: invalid field"))
self is Field & check_wf(self.Field.root, locals, prog).Ok.0 is Tuple & not self.Field.field >= 0 => Err(IllFormed("PlaceExpr::Field: invalid field"))
self is Deref & not check_wf(self.Deref.operand, locals, prog).Ok.0 is Ptr => Err(IllFormed("PlaceExpr::Deref: invalid operand type"))
self is Deref & check_wf(self.Deref.operand, locals, prog).Ok.0 is Ptr & not meta_kind(check_wf(self.Deref.operand, locals, prog).Ok.0.Ptr.0) == meta_kind(self.Deref.ty) => Err(IllFormed("PlaceExpr::Deref: metadata kind of operand and type don't match"))
self is Deref & check_wf(self.Deref.operand, locals, prog).Ok.0 is Ptr & meta_kind(check_wf(self.Deref.operand, locals, prog).Ok.0.Ptr.0) == meta_kind(self.Deref.ty) => Ok(self.Deref.ty) ; check_wf(self.Deref.ty, prog)? ; check_wf(self.Deref.operand, locals, prog)?
self is Local & get(locals, self.Local.0) is Some => Ok(get(locals, self.Local.0).Some.0)
self is Local & get(locals, self.Local.0) is None => Err(IllFormed("PlaceExpr::Local: unknown local name"))
## ArgumentExpr::check_wf(self, locals, prog)
self is InPlace => Ok(check_wf(self.InPlace.0, locals, prog).Ok.0) ; check_wf(self.InPlace.0, locals, prog)?
self is ByValue => Ok(check_wf(self.ByValue.0, locals, prog).Ok.0) ; check_wf(self.ByValue.0, locals, prog)?
"""


def check(c):
    n = sp.book(c, T)
    c.floor("functions", n, 5)
