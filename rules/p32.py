"""P32: minimize translates every operator, cast, aggregate, operand and place to the MiniRust construct with that meaning."""
import mz
from tool import book

META = dict(rule="Decision table: for every kind of MIR rvalue, operand and place projection, the MiniRust expression built on every path of the translation is compared (as a normalised term) with the construct it stands for; what the table does not list must be refused.")
T = r"""
## mz::FnCtxt::translate_rvalue_smir(self, rv, span)
rv is Use => op(rv.Use.0)
rv is UnaryOp & rv.UnaryOp.0 is PtrMetadata & type(tyof(rv.UnaryOp.1)!) is Ptr => UnOp{operator: GetMetadata, operand: op(rv.UnaryOp.1)}
rv is UnaryOp & rv.UnaryOp.0 is Neg & type(tyof(rv.UnaryOp.1)!) is Int => UnOp{operator: Int(Neg), operand: op(rv.UnaryOp.1)}
rv is UnaryOp & rv.UnaryOp.0 is Not & type(tyof(rv.UnaryOp.1)!) is Bool => UnOp{operator: Cast(Transmute(Bool)), operand: BinOp{operator: Int(Sub), left: Constant(Int(1), u8), right: UnOp{operator: Cast(Transmute(u8)), operand: op(rv.UnaryOp.1)}}}
rv is UnaryOp & rv.UnaryOp.0 is Not & type(tyof(rv.UnaryOp.1)!) is Int => UnOp{operator: Int(BitNot), operand: op(rv.UnaryOp.1)}
rv is Repeat => Tuple(repeat(op(rv.Repeat.0), eval_target_usize(rv.Repeat.1)!), Array{elem: type(tyof(rv.Repeat.0)!), count: eval_target_usize(rv.Repeat.1)!})
rv is Ref & to_mutable_lossy(rv.Ref.1) is Not => AddrOf{target: place(rv.Ref.2), ptr_ty: Ref{mutbl: Immutable, pointee: pointee(tyof(rv.Ref.2)!)}}
rv is Ref & to_mutable_lossy(rv.Ref.1) is Mut => AddrOf{target: place(rv.Ref.2), ptr_ty: Ref{mutbl: Mutable, pointee: pointee(tyof(rv.Ref.2)!)}}
rv is Len & type(tyof(rv.Len.0)!) is Slice => UnOp{operator: GetMetadata, operand: AddrOf{target: place(rv.Len.0), ptr_ty: Raw{meta_kind: ElementCount}}}
rv is Len & type(tyof(rv.Len.0)!) is Array => Constant(Int(type(tyof(rv.Len.0)!).Array.count), u64)
rv is Discriminant => GetDiscriminant{place: place(rv.Discriminant.0)}
rv is CopyForDeref => Load{source: place(rv.CopyForDeref.0)}
rv is CheckedBinaryOp & rv.CheckedBinaryOp.0 is Mul => BinOp{operator: IntWithOverflow(Mul), left: op(rv.CheckedBinaryOp.1), right: op(rv.CheckedBinaryOp.2)}
rv is CheckedBinaryOp & rv.CheckedBinaryOp.0 is Sub => BinOp{operator: IntWithOverflow(Sub), left: op(rv.CheckedBinaryOp.1), right: op(rv.CheckedBinaryOp.2)}
rv is CheckedBinaryOp & rv.CheckedBinaryOp.0 is Add => BinOp{operator: IntWithOverflow(Add), left: op(rv.CheckedBinaryOp.1), right: op(rv.CheckedBinaryOp.2)}
rv is Cast & rv.Cast.0 is Transmute => UnOp{operator: Cast(Transmute(type(rv.Cast.2))), operand: op(rv.Cast.1)}
rv is Cast & rv.Cast.0 is FnPtrToPtr => UnOp{operator: Cast(Transmute(type(rv.Cast.2))), operand: op(rv.Cast.1)}
rv is Cast & rv.Cast.0 is PtrToPtr & type(tyof(rv.Cast.1)!) is Ptr & type(tyof(rv.Cast.1)!).Ptr.0 is Raw & type(rv.Cast.2) is Ptr & type(rv.Cast.2).Ptr.0 is Raw & type(rv.Cast.2).Ptr.0.Raw.meta_kind == type(tyof(rv.Cast.1)!).Ptr.0.Raw.meta_kind => op(rv.Cast.1)
rv is Cast & rv.Cast.0 is PtrToPtr & type(tyof(rv.Cast.1)!) is Ptr & type(tyof(rv.Cast.1)!).Ptr.0 is Raw & type(rv.Cast.2) is Ptr & type(rv.Cast.2).Ptr.0 is Raw & not type(rv.Cast.2).Ptr.0.Raw.meta_kind == type(tyof(rv.Cast.1)!).Ptr.0.Raw.meta_kind & type(rv.Cast.2).Ptr.0.Raw.meta_kind is None => UnOp{operator: GetThinPointer, operand: op(rv.Cast.1)}
rv is Cast & rv.Cast.0 is IntToInt & type(rv.Cast.2) is Int & type(tyof(rv.Cast.1)!) is Bool => UnOp{operator: Cast(IntToInt(type(rv.Cast.2).Int.0)), operand: UnOp{operator: Cast(Transmute(u8)), operand: op(rv.Cast.1)}}
rv is Cast & rv.Cast.0 is IntToInt & type(rv.Cast.2) is Int & type(tyof(rv.Cast.1)!) is Int => UnOp{operator: Cast(IntToInt(type(rv.Cast.2).Int.0)), operand: op(rv.Cast.1)}
rv is Cast & rv.Cast.0 is PointerCoercion & rv.Cast.0.PointerCoercion.0 is Unsize & type(rv.Cast.2) is Ptr & not kind(pointee_ty(i(tyof(rv.Cast.1)!))!) is Array & not kind(pointee_ty(i(tyof(rv.Cast.1)!))!) is Dynamic & kind(pointee_ty(i(rv.Cast.2))!) is Dynamic => BinOp{operator: ConstructWidePointer(type(rv.Cast.2).Ptr.0), left: op(rv.Cast.1), right: Constant(VTablePointer(vtable(pointee_ty(i(tyof(rv.Cast.1)!))!, pointee_ty(i(rv.Cast.2))!)), Ptr(VTablePtr(trait_name(pointee_ty(i(rv.Cast.2))!))))}
rv is Cast & rv.Cast.0 is PointerCoercion & rv.Cast.0.PointerCoercion.0 is Unsize & type(rv.Cast.2) is Ptr & kind(pointee_ty(i(tyof(rv.Cast.1)!))!) is Dynamic & kind(pointee_ty(i(rv.Cast.2))!) is Dynamic & kind(pointee_ty(i(rv.Cast.2))!).Dynamic.0 == kind(pointee_ty(i(tyof(rv.Cast.1)!))!).Dynamic.0 => op(rv.Cast.1)
rv is Cast & rv.Cast.0 is PointerCoercion & rv.Cast.0.PointerCoercion.0 is Unsize & type(rv.Cast.2) is Ptr & kind(pointee_ty(i(tyof(rv.Cast.1)!))!) is Array & kind(pointee_ty(i(rv.Cast.2))!) is Dynamic => BinOp{operator: ConstructWidePointer(type(rv.Cast.2).Ptr.0), left: op(rv.Cast.1), right: Constant(VTablePointer(vtable(pointee_ty(i(tyof(rv.Cast.1)!))!, pointee_ty(i(rv.Cast.2))!)), Ptr(VTablePtr(trait_name(pointee_ty(i(rv.Cast.2))!))))}
rv is Cast & rv.Cast.0 is PointerCoercion & rv.Cast.0.PointerCoercion.0 is Unsize & type(rv.Cast.2) is Ptr & kind(pointee_ty(i(tyof(rv.Cast.1)!))!) is Array & kind(pointee_ty(i(rv.Cast.2))!) is Slice & kind(pointee_ty(i(rv.Cast.2))!).Slice.0 == kind(pointee_ty(i(tyof(rv.Cast.1)!))!).Array.0 => BinOp{operator: ConstructWidePointer(type(rv.Cast.2).Ptr.0), left: op(rv.Cast.1), right: Constant(Int(try_to_target_usize(kind(pointee_ty(i(tyof(rv.Cast.1)!))!).Array.1, self.tcx)!), u64)}
rv is Cast & rv.Cast.0 is PointerCoercion & rv.Cast.0.PointerCoercion.0 is UnsafeFnPointer => UnOp{operator: Cast(Transmute(type(rv.Cast.2))), operand: op(rv.Cast.1)}
rv is Cast & rv.Cast.0 is PointerCoercion & rv.Cast.0.PointerCoercion.0 is ReifyFnPointer & rv.Cast.1 is Constant & kind(tyof(rv.Cast.1.Constant.0)) is RigidTy & kind(tyof(rv.Cast.1.Constant.0)).RigidTy.0 is FnDef => Constant(FnPointer(FnName(from_internal(get_internal(fn_name(resolve(kind(tyof(rv.Cast.1.Constant.0)).RigidTy.0.FnDef.0, kind(tyof(rv.Cast.1.Constant.0)).RigidTy.0.FnDef.1)!).0)))), Ptr(FnPtr))
rv is BinaryOp & rv.BinaryOp.0 is Offset & type(tyof(rv.BinaryOp.1)!) is Ptr & kind(tyof(rv.BinaryOp.1)!) is RigidTy & kind(tyof(rv.BinaryOp.1)!).RigidTy.0 is RawPtr & is_sized(rslayout(kind(tyof(rv.BinaryOp.1)!).RigidTy.0.RawPtr.0)) => BinOp{operator: PtrOffset{inbounds: True}, left: op(rv.BinaryOp.1), right: BinOp{operator: Int(MulUnchecked), left: op(rv.BinaryOp.2), right: Constant(Int(bytes(rslayout(kind(tyof(rv.BinaryOp.1)!).RigidTy.0.RawPtr.0).size)), type(tyof(rv.BinaryOp.2)!))}}
rv is BinaryOp & rv.BinaryOp.0 is Cmp => UnOp{operator: Cast(Transmute(type(ty_ordering_enum(self.tcx, r::DUMMY_SP)))), operand: BinOp{operator: Rel(Cmp), left: op(rv.BinaryOp.1), right: op(rv.BinaryOp.2)}}
rv is BinaryOp & rv.BinaryOp.0 is Gt => BinOp{operator: Rel(Gt), left: op(rv.BinaryOp.1), right: op(rv.BinaryOp.2)}
rv is BinaryOp & rv.BinaryOp.0 is Ge => BinOp{operator: Rel(Ge), left: op(rv.BinaryOp.1), right: op(rv.BinaryOp.2)}
rv is BinaryOp & rv.BinaryOp.0 is Ne => BinOp{operator: Rel(Ne), left: op(rv.BinaryOp.1), right: op(rv.BinaryOp.2)}
rv is BinaryOp & rv.BinaryOp.0 is Le => BinOp{operator: Rel(Le), left: op(rv.BinaryOp.1), right: op(rv.BinaryOp.2)}
rv is BinaryOp & rv.BinaryOp.0 is Lt => BinOp{operator: Rel(Lt), left: op(rv.BinaryOp.1), right: op(rv.BinaryOp.2)}
rv is BinaryOp & rv.BinaryOp.0 is Eq => BinOp{operator: Rel(Eq), left: op(rv.BinaryOp.1), right: op(rv.BinaryOp.2)}
rv is BinaryOp & rv.BinaryOp.0 is ShrUnchecked & type(tyof(rv.BinaryOp.1)!) is Int => BinOp{operator: Int(ShrUnchecked), left: op(rv.BinaryOp.1), right: op(rv.BinaryOp.2)}
rv is BinaryOp & rv.BinaryOp.0 is Shr & type(tyof(rv.BinaryOp.1)!) is Int => BinOp{operator: Int(Shr), left: op(rv.BinaryOp.1), right: op(rv.BinaryOp.2)}
rv is BinaryOp & rv.BinaryOp.0 is ShlUnchecked & type(tyof(rv.BinaryOp.1)!) is Int => BinOp{operator: Int(ShlUnchecked), left: op(rv.BinaryOp.1), right: op(rv.BinaryOp.2)}
rv is BinaryOp & rv.BinaryOp.0 is Shl & type(tyof(rv.BinaryOp.1)!) is Int => BinOp{operator: Int(Shl), left: op(rv.BinaryOp.1), right: op(rv.BinaryOp.2)}
rv is BinaryOp & rv.BinaryOp.0 is BitOr & type(tyof(rv.BinaryOp.1)!) is Bool => UnOp{operator: Cast(Transmute(Bool)), operand: BinOp{operator: Int(BitOr), left: UnOp{operator: Cast(Transmute(u8)), operand: op(rv.BinaryOp.1)}, right: UnOp{operator: Cast(Transmute(u8)), operand: op(rv.BinaryOp.2)}}}
rv is BinaryOp & rv.BinaryOp.0 is BitOr & type(tyof(rv.BinaryOp.1)!) is Int => BinOp{operator: Int(BitOr), left: op(rv.BinaryOp.1), right: op(rv.BinaryOp.2)}
rv is BinaryOp & rv.BinaryOp.0 is BitAnd & type(tyof(rv.BinaryOp.1)!) is Bool => UnOp{operator: Cast(Transmute(Bool)), operand: BinOp{operator: Int(BitAnd), left: UnOp{operator: Cast(Transmute(u8)), operand: op(rv.BinaryOp.1)}, right: UnOp{operator: Cast(Transmute(u8)), operand: op(rv.BinaryOp.2)}}}
rv is BinaryOp & rv.BinaryOp.0 is BitAnd & type(tyof(rv.BinaryOp.1)!) is Int => BinOp{operator: Int(BitAnd), left: op(rv.BinaryOp.1), right: op(rv.BinaryOp.2)}
rv is BinaryOp & rv.BinaryOp.0 is BitXor & type(tyof(rv.BinaryOp.1)!) is Bool => UnOp{operator: Cast(Transmute(Bool)), operand: BinOp{operator: Int(BitXor), left: UnOp{operator: Cast(Transmute(u8)), operand: op(rv.BinaryOp.1)}, right: UnOp{operator: Cast(Transmute(u8)), operand: op(rv.BinaryOp.2)}}}
rv is BinaryOp & rv.BinaryOp.0 is BitXor & type(tyof(rv.BinaryOp.1)!) is Int => BinOp{operator: Int(BitXor), left: op(rv.BinaryOp.1), right: op(rv.BinaryOp.2)}
rv is BinaryOp & rv.BinaryOp.0 is Rem & type(tyof(rv.BinaryOp.1)!) is Int => BinOp{operator: Int(Rem), left: op(rv.BinaryOp.1), right: op(rv.BinaryOp.2)}
rv is BinaryOp & rv.BinaryOp.0 is Div & type(tyof(rv.BinaryOp.1)!) is Int => BinOp{operator: Int(Div), left: op(rv.BinaryOp.1), right: op(rv.BinaryOp.2)}
rv is BinaryOp & rv.BinaryOp.0 is MulUnchecked & type(tyof(rv.BinaryOp.1)!) is Int => BinOp{operator: Int(MulUnchecked), left: op(rv.BinaryOp.1), right: op(rv.BinaryOp.2)}
rv is BinaryOp & rv.BinaryOp.0 is Mul & type(tyof(rv.BinaryOp.1)!) is Int => BinOp{operator: Int(Mul), left: op(rv.BinaryOp.1), right: op(rv.BinaryOp.2)}
rv is BinaryOp & rv.BinaryOp.0 is SubUnchecked & type(tyof(rv.BinaryOp.1)!) is Int => BinOp{operator: Int(SubUnchecked), left: op(rv.BinaryOp.1), right: op(rv.BinaryOp.2)}
rv is BinaryOp & rv.BinaryOp.0 is Sub & type(tyof(rv.BinaryOp.1)!) is Int => BinOp{operator: Int(Sub), left: op(rv.BinaryOp.1), right: op(rv.BinaryOp.2)}
rv is BinaryOp & rv.BinaryOp.0 is AddUnchecked & type(tyof(rv.BinaryOp.1)!) is Int => BinOp{operator: Int(AddUnchecked), left: op(rv.BinaryOp.1), right: op(rv.BinaryOp.2)}
rv is BinaryOp & rv.BinaryOp.0 is Add & type(tyof(rv.BinaryOp.1)!) is Int => BinOp{operator: Int(Add), left: op(rv.BinaryOp.1), right: op(rv.BinaryOp.2)}
rv is Aggregate & type(tyof(rv)!) is Enum & rv.Aggregate.0 is Adt => Variant{discriminant: discr(tyof(rv)!, rv.Aggregate.0.Adt.1), data: Tuple([op(each(rv.Aggregate.1)) for rv.Aggregate.1], get(type(tyof(rv)!).Enum.variants, discr(tyof(rv)!, rv.Aggregate.0.Adt.1))!.ty), enum_ty: type(tyof(rv)!)}
rv is Aggregate & type(tyof(rv)!) is Union & rv.Aggregate.0 is Adt & (len(rv.Aggregate.1) + -1) == 0 => Union{field: rv.Aggregate.0.Adt.4!, expr: op(rv.Aggregate.1[0]), union_ty: type(tyof(rv)!)}
rv is Aggregate & type(tyof(rv)!) is Array => Tuple([op(each(rv.Aggregate.1)) for rv.Aggregate.1], type(tyof(rv)!))
rv is Aggregate & type(tyof(rv)!) is Tuple => Tuple([op(each(rv.Aggregate.1)) for rv.Aggregate.1], type(tyof(rv)!))
rv is Aggregate & type(tyof(rv)!) is Ptr & type(tyof(rv)!).Ptr.0 is Raw & (len(rv.Aggregate.1) + -2) == 0 => BinOp{operator: ConstructWidePointer(type(tyof(rv)!).Ptr.0), left: op(rv.Aggregate.1[0]), right: op(rv.Aggregate.1[1])}
rv is AddressOf => AddrOf{target: place(rv.AddressOf.1), ptr_ty: Raw{meta_kind: meta_kind(pointee(tyof(rv.AddressOf.1)!).layout)}}
## mz::FnCtxt::translate_operand_smir(self, operand, span)
operand is RuntimeChecks & operand.RuntimeChecks.0 is OverflowChecks => Constant(Bool(overflow_checks(self.tcx.sess)), Bool)
operand is RuntimeChecks & operand.RuntimeChecks.0 is ContractChecks => Constant(Bool(contract_checks(self.tcx.sess)), Bool)
operand is RuntimeChecks & operand.RuntimeChecks.0 is UbChecks => Constant(Bool(ub_checks(self.tcx.sess)), Bool)
operand is Constant => constant(operand.Constant.0.const_)
operand is Move => Load{source: place(operand.Move.0)}
operand is Copy => Load{source: place(operand.Copy.0)}
## mz::FnCtxt::translate_place_smir(self, place, span)
always => fold(place.projection, (Local(self.local_name_map[place.local]), self.locals_smir[place.local].ty), each(place.projection), ({each(place.projection) is Deref: Deref{operand: Load{source: acc0}, ty: type(tyof(each(place.projection), acc1)!)}; !(each(place.projection) is Deref) && each(place.projection) is Downcast: Downcast{root: acc0, discriminant: discr(tyof(each(place.projection), acc1)!, each(place.projection).Downcast.0)}; !(each(place.projection) is Deref) && !(each(place.projection) is Downcast) && each(place.projection) is Field: Field{root: acc0, field: each(place.projection).Field.0}; !(each(place.projection) is Deref) && !(each(place.projection) is Downcast) && !(each(place.projection) is Field): Index{root: acc0, index: Load{source: Local(self.local_name_map[each(place.projection).Index.0])}}}, tyof(each(place.projection), acc1)!))
"""


def check(c):
    mz.setup()
    n = book(c, T, mz.STEPS)
    c.floor("translated functions", n, 3)
