"""P44: the pretty printer shows every construct, with all its parts, in a notation of its own."""
import mz, tool
from tool import book

META = dict(rule="Decision table: the text printed for every kind of expression, statement, terminator, intrinsic, type, layout, global, vtable and trait, with the parts it is put together from and the order "
                 "functions, blocks and locals come in, on every path, is compared with the table; every composite type met is listed once and defined.")
X = "mu::pretty::"
T = r"""
## mu::pretty::expr::FmtExpr::to_string(self)
self is Atomic => self.Atomic.0
self is NonAtomic => self.NonAtomic.0
## mu::pretty::expr::FmtExpr::to_atomic_string(self)
self is Atomic => self.Atomic.0
self is NonAtomic => "({self.NonAtomic.0})"
## mu::pretty::expr::fmt_place_expr(p, comptypes)
p is Downcast => NonAtomic("{to_atomic_string(fmt_place_expr(p.Downcast.root, comptypes))} as variant {p.Downcast.discriminant}")
p is Index => Atomic("{to_atomic_string(fmt_place_expr(p.Index.root, comptypes))}[{to_string(fmt_value_expr(p.Index.index, comptypes))}]")
p is Field => Atomic("{to_atomic_string(fmt_place_expr(p.Field.root, comptypes))}.{p.Field.field}")
p is Deref => Atomic("deref<{to_string(fmt_type(p.Deref.ty, comptypes))}>({to_string(fmt_value_expr(p.Deref.operand, comptypes))})")
p is Local => Atomic(fmt_local_name(p.Local.0))
## mu::pretty::expr::fmt_local_name(l)
always => "_{get_internal(l.0)}"
## mu::pretty::expr::fmt_global_name(g)
always => "global({get_internal(g.0)})"
## mu::pretty::expr::fmt_constant(c)
c is PointerWithoutProvenance & c.PointerWithoutProvenance.0 == 0 => Atomic("nullptr")
c is PointerWithoutProvenance & not c.PointerWithoutProvenance.0 == 0 => Atomic("invalid_ptr({c.PointerWithoutProvenance.0})")
c is VTablePointer => Atomic(fmt_vtable_name(c.VTablePointer.0))
c is FnPointer => Atomic(fmt_fn_name(c.FnPointer.0))
c is GlobalPointer => fmt_relocation(c.GlobalPointer.0)
c is Bool => Atomic(c.Bool.0)
c is Int => Atomic(c.Int.0)
## mu::pretty::expr::fmt_value_expr(v, comptypes)
v is BinOp & v.BinOp.operator is ConstructWidePointer => Atomic("construct_ptr<{to_string(fmt_ptr_type(v.BinOp.operator.ConstructWidePointer.0))}>({to_string(fmt_value_expr(v.BinOp.left, comptypes))}, {to_string(fmt_value_expr(v.BinOp.right, comptypes))})")
v is BinOp & v.BinOp.operator is PtrOffsetFrom & v.BinOp.operator.PtrOffsetFrom.inbounds & v.BinOp.operator.PtrOffsetFrom.nonneg => Atomic("offset_from_inbounds_nonneg({to_string(fmt_value_expr(v.BinOp.left, comptypes))}, {to_string(fmt_value_expr(v.BinOp.right, comptypes))})")
v is BinOp & v.BinOp.operator is PtrOffsetFrom & v.BinOp.operator.PtrOffsetFrom.inbounds & not v.BinOp.operator.PtrOffsetFrom.nonneg => Atomic("offset_from_inbounds({to_string(fmt_value_expr(v.BinOp.left, comptypes))}, {to_string(fmt_value_expr(v.BinOp.right, comptypes))})")
v is BinOp & v.BinOp.operator is PtrOffsetFrom & not v.BinOp.operator.PtrOffsetFrom.inbounds & v.BinOp.operator.PtrOffsetFrom.nonneg => Atomic("offset_from_wrapping_nonneg({to_string(fmt_value_expr(v.BinOp.left, comptypes))}, {to_string(fmt_value_expr(v.BinOp.right, comptypes))})")
v is BinOp & v.BinOp.operator is PtrOffsetFrom & not v.BinOp.operator.PtrOffsetFrom.inbounds & not v.BinOp.operator.PtrOffsetFrom.nonneg => Atomic("offset_from_wrapping({to_string(fmt_value_expr(v.BinOp.left, comptypes))}, {to_string(fmt_value_expr(v.BinOp.right, comptypes))})")
v is BinOp & v.BinOp.operator is PtrOffset & v.BinOp.operator.PtrOffset.inbounds => Atomic("offset_inbounds({to_string(fmt_value_expr(v.BinOp.left, comptypes))}, {to_string(fmt_value_expr(v.BinOp.right, comptypes))})")
v is BinOp & v.BinOp.operator is PtrOffset & not v.BinOp.operator.PtrOffset.inbounds => Atomic("offset_wrapping({to_string(fmt_value_expr(v.BinOp.left, comptypes))}, {to_string(fmt_value_expr(v.BinOp.right, comptypes))})")
v is BinOp & v.BinOp.operator is Rel & v.BinOp.operator.Rel.0 is Cmp => NonAtomic("{to_atomic_string(fmt_value_expr(v.BinOp.left, comptypes))} <=> {to_atomic_string(fmt_value_expr(v.BinOp.right, comptypes))}")
v is BinOp & v.BinOp.operator is Rel & v.BinOp.operator.Rel.0 is Ne => NonAtomic("{to_atomic_string(fmt_value_expr(v.BinOp.left, comptypes))} != {to_atomic_string(fmt_value_expr(v.BinOp.right, comptypes))}")
v is BinOp & v.BinOp.operator is Rel & v.BinOp.operator.Rel.0 is Eq => NonAtomic("{to_atomic_string(fmt_value_expr(v.BinOp.left, comptypes))} == {to_atomic_string(fmt_value_expr(v.BinOp.right, comptypes))}")
v is BinOp & v.BinOp.operator is Rel & v.BinOp.operator.Rel.0 is Ge => NonAtomic("{to_atomic_string(fmt_value_expr(v.BinOp.left, comptypes))} >= {to_atomic_string(fmt_value_expr(v.BinOp.right, comptypes))}")
v is BinOp & v.BinOp.operator is Rel & v.BinOp.operator.Rel.0 is Le => NonAtomic("{to_atomic_string(fmt_value_expr(v.BinOp.left, comptypes))} <= {to_atomic_string(fmt_value_expr(v.BinOp.right, comptypes))}")
v is BinOp & v.BinOp.operator is Rel & v.BinOp.operator.Rel.0 is Gt => NonAtomic("{to_atomic_string(fmt_value_expr(v.BinOp.left, comptypes))} > {to_atomic_string(fmt_value_expr(v.BinOp.right, comptypes))}")
v is BinOp & v.BinOp.operator is Rel & v.BinOp.operator.Rel.0 is Lt => NonAtomic("{to_atomic_string(fmt_value_expr(v.BinOp.left, comptypes))} < {to_atomic_string(fmt_value_expr(v.BinOp.right, comptypes))}")
v is BinOp & v.BinOp.operator is IntWithOverflow & v.BinOp.operator.IntWithOverflow.0 is Mul => Atomic("MulWithOverflow({to_atomic_string(fmt_value_expr(v.BinOp.left, comptypes))}, {to_atomic_string(fmt_value_expr(v.BinOp.right, comptypes))})")
v is BinOp & v.BinOp.operator is IntWithOverflow & v.BinOp.operator.IntWithOverflow.0 is Sub => Atomic("SubWithOverflow({to_atomic_string(fmt_value_expr(v.BinOp.left, comptypes))}, {to_atomic_string(fmt_value_expr(v.BinOp.right, comptypes))})")
v is BinOp & v.BinOp.operator is IntWithOverflow & v.BinOp.operator.IntWithOverflow.0 is Add => Atomic("AddWithOverflow({to_atomic_string(fmt_value_expr(v.BinOp.left, comptypes))}, {to_atomic_string(fmt_value_expr(v.BinOp.right, comptypes))})")
v is BinOp & v.BinOp.operator is Int & v.BinOp.operator.Int.0 is BitXor => NonAtomic("{to_atomic_string(fmt_value_expr(v.BinOp.left, comptypes))} ^ {to_atomic_string(fmt_value_expr(v.BinOp.right, comptypes))}")
v is BinOp & v.BinOp.operator is Int & v.BinOp.operator.Int.0 is BitOr => NonAtomic("{to_atomic_string(fmt_value_expr(v.BinOp.left, comptypes))} | {to_atomic_string(fmt_value_expr(v.BinOp.right, comptypes))}")
v is BinOp & v.BinOp.operator is Int & v.BinOp.operator.Int.0 is BitAnd => NonAtomic("{to_atomic_string(fmt_value_expr(v.BinOp.left, comptypes))} & {to_atomic_string(fmt_value_expr(v.BinOp.right, comptypes))}")
v is BinOp & v.BinOp.operator is Int & v.BinOp.operator.Int.0 is ShrUnchecked => Atomic("ShrUnchecked({to_atomic_string(fmt_value_expr(v.BinOp.left, comptypes))}, {to_atomic_string(fmt_value_expr(v.BinOp.right, comptypes))})")
v is BinOp & v.BinOp.operator is Int & v.BinOp.operator.Int.0 is Shr => NonAtomic("{to_atomic_string(fmt_value_expr(v.BinOp.left, comptypes))} >> {to_atomic_string(fmt_value_expr(v.BinOp.right, comptypes))}")
v is BinOp & v.BinOp.operator is Int & v.BinOp.operator.Int.0 is ShlUnchecked => Atomic("ShlUnchecked({to_atomic_string(fmt_value_expr(v.BinOp.left, comptypes))}, {to_atomic_string(fmt_value_expr(v.BinOp.right, comptypes))})")
v is BinOp & v.BinOp.operator is Int & v.BinOp.operator.Int.0 is Shl => NonAtomic("{to_atomic_string(fmt_value_expr(v.BinOp.left, comptypes))} << {to_atomic_string(fmt_value_expr(v.BinOp.right, comptypes))}")
v is BinOp & v.BinOp.operator is Int & v.BinOp.operator.Int.0 is Rem => NonAtomic("{to_atomic_string(fmt_value_expr(v.BinOp.left, comptypes))} % {to_atomic_string(fmt_value_expr(v.BinOp.right, comptypes))}")
v is BinOp & v.BinOp.operator is Int & v.BinOp.operator.Int.0 is DivExact => Atomic("DivExact({to_atomic_string(fmt_value_expr(v.BinOp.left, comptypes))}, {to_atomic_string(fmt_value_expr(v.BinOp.right, comptypes))})")
v is BinOp & v.BinOp.operator is Int & v.BinOp.operator.Int.0 is Div => NonAtomic("{to_atomic_string(fmt_value_expr(v.BinOp.left, comptypes))} / {to_atomic_string(fmt_value_expr(v.BinOp.right, comptypes))}")
v is BinOp & v.BinOp.operator is Int & v.BinOp.operator.Int.0 is MulUnchecked => Atomic("MulUnchecked({to_atomic_string(fmt_value_expr(v.BinOp.left, comptypes))}, {to_atomic_string(fmt_value_expr(v.BinOp.right, comptypes))})")
v is BinOp & v.BinOp.operator is Int & v.BinOp.operator.Int.0 is Mul => NonAtomic("{to_atomic_string(fmt_value_expr(v.BinOp.left, comptypes))} * {to_atomic_string(fmt_value_expr(v.BinOp.right, comptypes))}")
v is BinOp & v.BinOp.operator is Int & v.BinOp.operator.Int.0 is SubUnchecked => Atomic("SubUnchecked({to_atomic_string(fmt_value_expr(v.BinOp.left, comptypes))}, {to_atomic_string(fmt_value_expr(v.BinOp.right, comptypes))})")
v is BinOp & v.BinOp.operator is Int & v.BinOp.operator.Int.0 is Sub => NonAtomic("{to_atomic_string(fmt_value_expr(v.BinOp.left, comptypes))} - {to_atomic_string(fmt_value_expr(v.BinOp.right, comptypes))}")
v is BinOp & v.BinOp.operator is Int & v.BinOp.operator.Int.0 is AddUnchecked => Atomic("AddUnchecked({to_atomic_string(fmt_value_expr(v.BinOp.left, comptypes))}, {to_atomic_string(fmt_value_expr(v.BinOp.right, comptypes))})")
v is BinOp & v.BinOp.operator is Int & v.BinOp.operator.Int.0 is Add => NonAtomic("{to_atomic_string(fmt_value_expr(v.BinOp.left, comptypes))} + {to_atomic_string(fmt_value_expr(v.BinOp.right, comptypes))}")
v is UnOp & v.UnOp.operator is VTableMethodLookup => NonAtomic("vtable_lookup<{fmt_trait_method_name(v.UnOp.operator.VTableMethodLookup.0)}>({to_string(fmt_value_expr(v.UnOp.operand, comptypes))})")
v is UnOp & v.UnOp.operator is ComputeAlign => Atomic("compute_align<{to_string(fmt_type(v.UnOp.operator.ComputeAlign.0, comptypes))}>({to_string(fmt_value_expr(v.UnOp.operand, comptypes))})")
v is UnOp & v.UnOp.operator is ComputeSize => Atomic("compute_size<{to_string(fmt_type(v.UnOp.operator.ComputeSize.0, comptypes))}>({to_string(fmt_value_expr(v.UnOp.operand, comptypes))})")
v is UnOp & v.UnOp.operator is GetMetadata => Atomic("get_metadata({to_string(fmt_value_expr(v.UnOp.operand, comptypes))})")
v is UnOp & v.UnOp.operator is GetThinPointer => Atomic("get_thin_ptr({to_string(fmt_value_expr(v.UnOp.operand, comptypes))})")
v is UnOp & v.UnOp.operator is Cast & v.UnOp.operator.Cast.0 is Transmute => Atomic("transmute<{to_string(fmt_type(v.UnOp.operator.Cast.0.Transmute.0, comptypes))}>({to_string(fmt_value_expr(v.UnOp.operand, comptypes))})")
v is UnOp & v.UnOp.operator is Cast & v.UnOp.operator.Cast.0 is IntToInt => Atomic("int2int<{fmt_int_type(v.UnOp.operator.Cast.0.IntToInt.0)}>({to_string(fmt_value_expr(v.UnOp.operand, comptypes))})")
v is UnOp & v.UnOp.operator is Int & v.UnOp.operator.Int.0 is CountOnes => NonAtomic("count_ones({to_string(fmt_value_expr(v.UnOp.operand, comptypes))})")
v is UnOp & v.UnOp.operator is Int & v.UnOp.operator.Int.0 is BitNot => NonAtomic("!({to_string(fmt_value_expr(v.UnOp.operand, comptypes))})")
v is UnOp & v.UnOp.operator is Int & v.UnOp.operator.Int.0 is Neg => NonAtomic("-({to_string(fmt_value_expr(v.UnOp.operand, comptypes))})")
v is AddrOf & v.AddrOf.ptr_ty is Raw => NonAtomic("&raw {to_atomic_string(fmt_place_expr(v.AddrOf.target, comptypes))}")
v is AddrOf & v.AddrOf.ptr_ty is Ref & v.AddrOf.ptr_ty.Ref.mutbl is Immutable => NonAtomic("&{to_atomic_string(fmt_place_expr(v.AddrOf.target, comptypes))}")
v is AddrOf & v.AddrOf.ptr_ty is Ref & v.AddrOf.ptr_ty.Ref.mutbl is Mutable => NonAtomic("&mut {to_atomic_string(fmt_place_expr(v.AddrOf.target, comptypes))}")
v is Load => Atomic("load({to_string(fmt_place_expr(v.Load.source, comptypes))})")
v is GetDiscriminant => Atomic("discriminant({to_string(fmt_place_expr(v.GetDiscriminant.place, comptypes))})")
v is Variant => NonAtomic("{to_string(fmt_type(v.Variant.enum_ty, comptypes))}(variant {v.Variant.discriminant}): {to_string(fmt_value_expr(v.Variant.data, comptypes))}")
v is Union => NonAtomic("{to_string(fmt_type(v.Union.union_ty, comptypes))} {{ field{v.Union.field}: {to_string(fmt_value_expr(v.Union.expr, comptypes))} }}")
v is Tuple & v.Tuple.1 is Array => Atomic("[{join([to_string(fmt_value_expr(each(v.Tuple.0), comptypes)) for v.Tuple.0], ", ")}]")
v is Tuple & v.Tuple.1 is Tuple => Atomic("({join([to_string(fmt_value_expr(each(v.Tuple.0), comptypes)) for v.Tuple.0], ", ")})")
v is Constant => fmt_constant(v.Constant.0)
## mu::pretty::function::fmt_functions(prog, comptypes)
always => join([fmt_function(each(prog.functions).0, each(prog.functions).1, each(prog.functions).0 == prog.start, comptypes) for sorted(prog.functions by each(prog.functions).0.0)], "")
## mu::pretty::function::fmt_function(fn_name, f, start, comptypes)
start => "start fn {fmt_fn_name(fn_name)}({join([fmt_local_name(each(f.args)) for f.args], ", ")}) -> {fmt_local_name(f.ret)} {{\n{join(["  let {fmt_local_name(each(f.locals).0)}: {to_string(fmt_type(each(f.locals).1, comptypes))};\n" for sorted(f.locals by each(f.locals).0.0)], "")}{join([fmt_bb(each(f.blocks).0, each(f.blocks).1, each(f.blocks).0 == f.start, comptypes) for sorted(f.blocks by each(f.blocks).0.0)], "")}}}\n\n"
not start => "fn {fmt_fn_name(fn_name)}({join([fmt_local_name(each(f.args)) for f.args], ", ")}) -> {fmt_local_name(f.ret)} {{\n{join(["  let {fmt_local_name(each(f.locals).0)}: {to_string(fmt_type(each(f.locals).1, comptypes))};\n" for sorted(f.locals by each(f.locals).0.0)], "")}{join([fmt_bb(each(f.blocks).0, each(f.blocks).1, each(f.blocks).0 == f.start, comptypes) for sorted(f.blocks by each(f.blocks).0.0)], "")}}}\n\n"
## mu::pretty::function::fmt_bb(bb_name, bb, start, comptypes)
start => "  start bb{get_internal(bb_name.0)}{fmt_bb_kind(bb)}:\n{join(["{fmt_statement(each(bb.statements), comptypes)}\n" for bb.statements], "")}{fmt_terminator(bb.terminator, comptypes)}\n"
not start => "  bb{get_internal(bb_name.0)}{fmt_bb_kind(bb)}:\n{join(["{fmt_statement(each(bb.statements), comptypes)}\n" for bb.statements], "")}{fmt_terminator(bb.terminator, comptypes)}\n"
## mu::pretty::function::fmt_statement(st, comptypes)
st is StorageDead => "    storage_dead({fmt_local_name(st.StorageDead.0)});"
st is StorageLive => "    storage_live({fmt_local_name(st.StorageLive.0)});"
st is Deinit => "    deinit({to_string(fmt_place_expr(st.Deinit.place, comptypes))});"
st is Validate => "    validate({to_string(fmt_place_expr(st.Validate.place, comptypes))}, {st.Validate.fn_entry});"
st is SetDiscriminant => "    discriminant({to_string(fmt_place_expr(st.SetDiscriminant.destination, comptypes))}) = {st.SetDiscriminant.value};"
st is PlaceMention => "    _ = {to_string(fmt_place_expr(st.PlaceMention.0, comptypes))};"
st is Assign => "    {to_string(fmt_place_expr(st.Assign.destination, comptypes))} = {to_string(fmt_value_expr(st.Assign.source, comptypes))};"
## mu::pretty::function::fmt_call(callee, conv, args, ret, next_block, unwind_block, comptypes)
next_block is Some & unwind_block is Some & conv is C => "    {to_string(fmt_place_expr(ret, comptypes))} = extern "{new_debug(conv)}" {callee}({args}) -> [return: {fmt_bb_name(next_block.Some.0)}, unwind: {fmt_bb_name(unwind_block.Some.0)}];"
next_block is Some & unwind_block is Some & conv is Rust => "    {to_string(fmt_place_expr(ret, comptypes))} = {callee}({args}) -> [return: {fmt_bb_name(next_block.Some.0)}, unwind: {fmt_bb_name(unwind_block.Some.0)}];"
next_block is Some & unwind_block is None & conv is C => "    {to_string(fmt_place_expr(ret, comptypes))} = extern "{new_debug(conv)}" {callee}({args}) -> return: {fmt_bb_name(next_block.Some.0)};"
next_block is Some & unwind_block is None & conv is Rust => "    {to_string(fmt_place_expr(ret, comptypes))} = {callee}({args}) -> return: {fmt_bb_name(next_block.Some.0)};"
next_block is None & unwind_block is Some & conv is C => "    {to_string(fmt_place_expr(ret, comptypes))} = extern "{new_debug(conv)}" {callee}({args}) -> unwind: {fmt_bb_name(unwind_block.Some.0)};"
next_block is None & unwind_block is Some & conv is Rust => "    {to_string(fmt_place_expr(ret, comptypes))} = {callee}({args}) -> unwind: {fmt_bb_name(unwind_block.Some.0)};"
next_block is None & unwind_block is None & conv is C => "    {to_string(fmt_place_expr(ret, comptypes))} = extern "{new_debug(conv)}" {callee}({args});"
next_block is None & unwind_block is None & conv is Rust => "    {to_string(fmt_place_expr(ret, comptypes))} = {callee}({args});"
## mu::pretty::function::fmt_terminator(t, comptypes)
t is ResumeUnwind => "    resume"
t is StopUnwind => "    stop unwind -> {fmt_bb_name(t.StopUnwind.0)} "
t is StartUnwind => "    start unwind({to_string(fmt_value_expr(t.StartUnwind.unwind_payload, comptypes))}) -> unwind: {fmt_bb_name(t.StartUnwind.unwind_block)} "
t is Return => "    return;"
t is Call => fmt_call(to_atomic_string(fmt_value_expr(t.Call.callee, comptypes)), t.Call.calling_convention, join([{each(t.Call.arguments) is ByValue: "by-value({to_string(fmt_value_expr(each(t.Call.arguments).ByValue.0, comptypes))})"; !(each(t.Call.arguments) is ByValue): "in-place({to_string(fmt_place_expr(each(t.Call.arguments).InPlace.0, comptypes))})"} for t.Call.arguments], ", "), t.Call.ret, t.Call.next_block, t.Call.unwind_block, comptypes)
t is Intrinsic & t.Intrinsic.intrinsic is GetUnwindPayload => fmt_call("get_unwind_payload", Rust, join([to_string(fmt_value_expr(each(t.Intrinsic.arguments), comptypes)) for t.Intrinsic.arguments], ", "), t.Intrinsic.ret, t.Intrinsic.next_block, None, comptypes)
t is Intrinsic & t.Intrinsic.intrinsic is PointerWithExposedProvenance => fmt_call("pointer_with_exposed_provenance", Rust, join([to_string(fmt_value_expr(each(t.Intrinsic.arguments), comptypes)) for t.Intrinsic.arguments], ", "), t.Intrinsic.ret, t.Intrinsic.next_block, None, comptypes)
t is Intrinsic & t.Intrinsic.intrinsic is PointerExposeProvenance => fmt_call("pointer_expose_provenance", Rust, join([to_string(fmt_value_expr(each(t.Intrinsic.arguments), comptypes)) for t.Intrinsic.arguments], ", "), t.Intrinsic.ret, t.Intrinsic.next_block, None, comptypes)
t is Intrinsic & t.Intrinsic.intrinsic is Lock & t.Intrinsic.intrinsic.Lock.0 is Create => fmt_call("lock_create", Rust, join([to_string(fmt_value_expr(each(t.Intrinsic.arguments), comptypes)) for t.Intrinsic.arguments], ", "), t.Intrinsic.ret, t.Intrinsic.next_block, None, comptypes)
t is Intrinsic & t.Intrinsic.intrinsic is Lock & t.Intrinsic.intrinsic.Lock.0 is Release => fmt_call("lock_release", Rust, join([to_string(fmt_value_expr(each(t.Intrinsic.arguments), comptypes)) for t.Intrinsic.arguments], ", "), t.Intrinsic.ret, t.Intrinsic.next_block, None, comptypes)
t is Intrinsic & t.Intrinsic.intrinsic is Lock & t.Intrinsic.intrinsic.Lock.0 is Acquire => fmt_call("lock_acquire", Rust, join([to_string(fmt_value_expr(each(t.Intrinsic.arguments), comptypes)) for t.Intrinsic.arguments], ", "), t.Intrinsic.ret, t.Intrinsic.next_block, None, comptypes)
t is Intrinsic & t.Intrinsic.intrinsic is AtomicFetchAndOp => fmt_call(fmt_fetch(t.Intrinsic.intrinsic.AtomicFetchAndOp.0), Rust, join([to_string(fmt_value_expr(each(t.Intrinsic.arguments), comptypes)) for t.Intrinsic.arguments], ", "), t.Intrinsic.ret, t.Intrinsic.next_block, None, comptypes)
t is Intrinsic & t.Intrinsic.intrinsic is AtomicCompareExchange => fmt_call("atomic_compare_exchange", Rust, join([to_string(fmt_value_expr(each(t.Intrinsic.arguments), comptypes)) for t.Intrinsic.arguments], ", "), t.Intrinsic.ret, t.Intrinsic.next_block, None, comptypes)
t is Intrinsic & t.Intrinsic.intrinsic is AtomicLoad => fmt_call("atomic_load", Rust, join([to_string(fmt_value_expr(each(t.Intrinsic.arguments), comptypes)) for t.Intrinsic.arguments], ", "), t.Intrinsic.ret, t.Intrinsic.next_block, None, comptypes)
t is Intrinsic & t.Intrinsic.intrinsic is AtomicStore => fmt_call("atomic_store", Rust, join([to_string(fmt_value_expr(each(t.Intrinsic.arguments), comptypes)) for t.Intrinsic.arguments], ", "), t.Intrinsic.ret, t.Intrinsic.next_block, None, comptypes)
t is Intrinsic & t.Intrinsic.intrinsic is RawEq => fmt_call("raw_eq", Rust, join([to_string(fmt_value_expr(each(t.Intrinsic.arguments), comptypes)) for t.Intrinsic.arguments], ", "), t.Intrinsic.ret, t.Intrinsic.next_block, None, comptypes)
t is Intrinsic & t.Intrinsic.intrinsic is Join => fmt_call("join", Rust, join([to_string(fmt_value_expr(each(t.Intrinsic.arguments), comptypes)) for t.Intrinsic.arguments], ", "), t.Intrinsic.ret, t.Intrinsic.next_block, None, comptypes)
t is Intrinsic & t.Intrinsic.intrinsic is Spawn => fmt_call("spawn", Rust, join([to_string(fmt_value_expr(each(t.Intrinsic.arguments), comptypes)) for t.Intrinsic.arguments], ", "), t.Intrinsic.ret, t.Intrinsic.next_block, None, comptypes)
t is Intrinsic & t.Intrinsic.intrinsic is Deallocate => fmt_call("deallocate", Rust, join([to_string(fmt_value_expr(each(t.Intrinsic.arguments), comptypes)) for t.Intrinsic.arguments], ", "), t.Intrinsic.ret, t.Intrinsic.next_block, None, comptypes)
t is Intrinsic & t.Intrinsic.intrinsic is Allocate => fmt_call("allocate", Rust, join([to_string(fmt_value_expr(each(t.Intrinsic.arguments), comptypes)) for t.Intrinsic.arguments], ", "), t.Intrinsic.ret, t.Intrinsic.next_block, None, comptypes)
t is Intrinsic & t.Intrinsic.intrinsic is PrintStderr => fmt_call("eprint", Rust, join([to_string(fmt_value_expr(each(t.Intrinsic.arguments), comptypes)) for t.Intrinsic.arguments], ", "), t.Intrinsic.ret, t.Intrinsic.next_block, None, comptypes)
t is Intrinsic & t.Intrinsic.intrinsic is PrintStdout => fmt_call("print", Rust, join([to_string(fmt_value_expr(each(t.Intrinsic.arguments), comptypes)) for t.Intrinsic.arguments], ", "), t.Intrinsic.ret, t.Intrinsic.next_block, None, comptypes)
t is Intrinsic & t.Intrinsic.intrinsic is Exit => fmt_call("exit", Rust, join([to_string(fmt_value_expr(each(t.Intrinsic.arguments), comptypes)) for t.Intrinsic.arguments], ", "), t.Intrinsic.ret, t.Intrinsic.next_block, None, comptypes)
t is Intrinsic & t.Intrinsic.intrinsic is Assume => fmt_call("assume", Rust, join([to_string(fmt_value_expr(each(t.Intrinsic.arguments), comptypes)) for t.Intrinsic.arguments], ", "), t.Intrinsic.ret, t.Intrinsic.next_block, None, comptypes)
t is Intrinsic & t.Intrinsic.intrinsic is Abort => fmt_call("abort", Rust, join([to_string(fmt_value_expr(each(t.Intrinsic.arguments), comptypes)) for t.Intrinsic.arguments], ", "), t.Intrinsic.ret, t.Intrinsic.next_block, None, comptypes)
t is Unreachable => "    unreachable;"
t is Switch => "    switch({to_string(fmt_value_expr(t.Switch.value, comptypes))}) -> [\n      {join(push(["{each(t.Switch.cases).0}: {fmt_bb_name(each(t.Switch.cases).1)}" for t.Switch.cases], "otherwise: {fmt_bb_name(t.Switch.fallback)}"), ",\n      ")}\n    ];"
t is Goto => "    goto -> {fmt_bb_name(t.Goto.0)};"
## mu::pretty::function::fmt_fetch(binop)
not binop is Add & not binop is Sub => "atomic_fetch_ILL_FORMED"
binop is Sub => "atomic_fetch_sub"
binop is Add => "atomic_fetch_add"
## mu::pretty::function::fmt_bb_name(bb)
always => "bb{get_internal(bb.0)}"
## mu::pretty::function::fmt_bb_kind(bb)
bb.kind is Terminate => " (Terminate)"
bb.kind is Catch => " (Catch)"
bb.kind is Cleanup => " (Cleanup)"
bb.kind is Regular => ""
## mu::pretty::function::fmt_fn_name(fn_name)
always => "f{get_internal(fn_name.0)}"
## mu::pretty::global::fmt_globals(globals)
always => join([fmt_global(each(globals).0, each(globals).1) for sorted(globals by each(globals).0.0)], "")
## mu::pretty::global::fmt_relocation(relocation)
relocation.offset == 0 => Atomic(fmt_global_name(relocation.name))
not relocation.offset == 0 => NonAtomic("{fmt_global_name(relocation.name)} + {relocation.offset}")
## mu::pretty::global::fmt_global(gname, global)
always => "{fmt_global_name(gname)} {{\n  bytes = [{fmt_bytes(global.bytes)}],\n  align = {global.align} bytes,\n{join(["  at byte {each(global.relocations).0}: {to_string(fmt_relocation(each(global.relocations).1))},\n" for global.relocations], "")}}}\n\n"
## mu::pretty::global::fmt_bytes(bytes)
always => join([{each(bytes) is Some: formatted(new_debug(each(bytes).Some.0), "2000006b0200"); !(each(bytes) is Some): "__"} for bytes], " ")
## mu::pretty::ty::fmt_type(t, comptypes)
t is TraitObject => Atomic("dyn {fmt_trait_name(t.TraitObject.0)}")
t is Enum => Atomic(fmt_comptype_index(get_comptype_index(CompType(t), comptypes)))
t is Union => Atomic(fmt_comptype_index(get_comptype_index(CompType(t), comptypes)))
t is Slice => Atomic("[{to_string(fmt_type(t.Slice.elem, comptypes))}]")
t is Array => Atomic("[{to_string(fmt_type(t.Array.elem, comptypes))}; {t.Array.count}]")
t is Tuple => Atomic(fmt_comptype_index(get_comptype_index(CompType(t), comptypes)))
t is Ptr => fmt_ptr_type(t.Ptr.0)
t is Bool => Atomic("bool")
t is Int => Atomic(fmt_int_type(t.Int.0))
## mu::pretty::ty::fmt_int_type(int_ty)
int_ty.signed is Unsigned => "u{(8*int_ty.size)}"
int_ty.signed is Signed => "i{(8*int_ty.size)}"
## mu::pretty::ty::fmt_ptr_type(ptr_ty)
ptr_ty is VTablePtr => Atomic("{{vtable}}")
ptr_ty is FnPtr => Atomic("fn()")
ptr_ty is Raw => NonAtomic("*raw({fmt_meta_kind(ptr_ty.Raw.meta_kind)})")
ptr_ty is Box => Atomic("Box<{fmt_pointee_info(ptr_ty.Box.pointee)}>")
ptr_ty is Ref & ptr_ty.Ref.mutbl is Immutable => NonAtomic("&{fmt_pointee_info(ptr_ty.Ref.pointee)}")
ptr_ty is Ref & ptr_ty.Ref.mutbl is Mutable => NonAtomic("&mut {fmt_pointee_info(ptr_ty.Ref.pointee)}")
## mu::pretty::ty::fmt_meta_kind(kind)
kind is VTablePointer => "meta=vtable<{fmt_trait_name(kind.VTablePointer.0)}>"
kind is ElementCount => "meta=len"
kind is None => "thin"
## mu::pretty::ty::fmt_layout_strategy(layout)
layout is Tuple & layout.Tuple.head.packed_align is None => "head=(end={layout.Tuple.head.end}, align={layout.Tuple.head.align}), tail=({fmt_layout_strategy(layout.Tuple.tail)})"
layout is Tuple & layout.Tuple.head.packed_align is Some => "head=(end={layout.Tuple.head.end}, align={layout.Tuple.head.align}), packed={layout.Tuple.head.packed_align.Some.0}, tail=({fmt_layout_strategy(layout.Tuple.tail)})"
layout is TraitObject => "size,align={{unknown}}"
layout is Slice => "size={layout.Slice.0}*len, align={layout.Slice.1}"
layout is Sized => "size={layout.Sized.0}, align={layout.Sized.1}"
## mu::pretty::ty::fmt_pointee_info(pointee)
pointee.inhabited & pointee.freeze & pointee.unpin => "pointee_info({fmt_meta_kind(meta_kind(pointee.layout))}, {fmt_layout_strategy(pointee.layout)})"
pointee.inhabited & pointee.freeze & not pointee.unpin => "pointee_info({fmt_meta_kind(meta_kind(pointee.layout))}, {fmt_layout_strategy(pointee.layout)}, !Unpin)"
pointee.inhabited & not pointee.freeze & pointee.unpin => "pointee_info({fmt_meta_kind(meta_kind(pointee.layout))}, {fmt_layout_strategy(pointee.layout)}, !Freeze)"
pointee.inhabited & not pointee.freeze & not pointee.unpin => "pointee_info({fmt_meta_kind(meta_kind(pointee.layout))}, {fmt_layout_strategy(pointee.layout)}, !Freeze, !Unpin)"
not pointee.inhabited & pointee.freeze & pointee.unpin => "pointee_info({fmt_meta_kind(meta_kind(pointee.layout))}, {fmt_layout_strategy(pointee.layout)}, uninhabited)"
not pointee.inhabited & pointee.freeze & not pointee.unpin => "pointee_info({fmt_meta_kind(meta_kind(pointee.layout))}, {fmt_layout_strategy(pointee.layout)}, uninhabited, !Unpin)"
not pointee.inhabited & not pointee.freeze & pointee.unpin => "pointee_info({fmt_meta_kind(meta_kind(pointee.layout))}, {fmt_layout_strategy(pointee.layout)}, uninhabited, !Freeze)"
not pointee.inhabited & not pointee.freeze & not pointee.unpin => "pointee_info({fmt_meta_kind(meta_kind(pointee.layout))}, {fmt_layout_strategy(pointee.layout)}, uninhabited, !Freeze, !Unpin)"
## mu::pretty::ty::get_comptype_index(ty, comptypes)
forall comptypes: !(each(comptypes) == ty) => CompTypeIndex{idx: len(comptypes)} ; comptypes := push(comptypes, ty)
each(comptypes) == ty => CompTypeIndex{idx: pos(comptypes, 0)}
## mu::pretty::ty::fmt_comptype_index(comptype_index)
always => "T{comptype_index.idx}"
## mu::pretty::ty::fmt_comptypes(comptypes)
not (-1*~0 + len(comptypes) + -1) >= 0 => W ; W from "" ; W1 from 0 ; W2 from comptypes ; each time fmt_comptype(CompTypeIndex{idx: W1}, W2[W1], W2); W := "{W}{fmt_comptype(CompTypeIndex{idx: W1}, W2[W1], W2)}"; W1 := (W1 + 1); W2 := W2 if (-1*W1 + len(W2) + -1) >= 0 ; until not (-1*W1 + len(W2) + -1) >= 0 ; until for all W2: (-1*W1 + len(W2) + -1) >= 0
## mu::pretty::ty::fmt_comptype(i, t, comptypes)
t.0 is Enum => "enum {fmt_comptype_index(i)} ({fmt_layout_strategy(layout(t.0))}) {{\n  Discriminant: {fmt_int_type(t.0.Enum.discriminant_ty)}\n{join(["  Variant {each(t.0.Enum.variants).0}: {to_string(fmt_type(each(t.0.Enum.variants).1.ty, comptypes))}\n" for t.0.Enum.variants], "")}}}\n\n"
t.0 is Union => "union {fmt_comptype_index(i)} ({fmt_layout_strategy(layout(t.0))}) {{\n{fmt_comptype_fields(t.0.Union.fields, comptypes)}{fmt_comptype_chunks(t.0.Union.chunks)}}}\n\n"
t.0 is Tuple & t.0.Tuple.unsized_field is None => "tuple {fmt_comptype_index(i)} ({fmt_layout_strategy(layout(t.0))}) {{\n{fmt_comptype_fields(t.0.Tuple.sized_fields, comptypes)}}}\n\n"
t.0 is Tuple & t.0.Tuple.unsized_field is Some => "tuple {fmt_comptype_index(i)} ({fmt_layout_strategy(layout(t.0))}) {{\n{fmt_comptype_fields(t.0.Tuple.sized_fields, comptypes)}  tail: {to_string(fmt_type(t.0.Tuple.unsized_field.Some.0, comptypes))},\n}}\n\n"
## mu::pretty::ty::fmt_comptype_fields(fields, comptypes)
always => join(["  at byte {each(fields).0}: {to_string(fmt_type(each(fields).1, comptypes))},\n" for fields], "")
## mu::pretty::ty::fmt_comptype_chunks(chunks)
always => join(["  chunk(at={each(chunks).0}, size={each(chunks).1}),\n" for chunks], "")
## mu::pretty::vtables::fmt_vtables(vtables)
always => "{join([fmt_vtable(each(vtables).0, each(vtables).1) for sorted(vtables by each(vtables).0.0)], "")}\n"
## mu::pretty::vtables::fmt_vtable_name(vtable_name)
always => "vtable{get_internal(vtable_name.0)}"
## mu::pretty::vtables::fmt_vtable(vtable_name, vtable)
always => "{fmt_vtable_name(vtable_name)} {{\n  trait = {fmt_trait_name(vtable.trait_name)},\n  size = {vtable.size},\n  align = {vtable.align},\n{join(["  {fmt_trait_method_name(each(vtable.methods).0)}() = {fmt_fn_name(each(vtable.methods).1)},\n" for vtable.methods], "")}}}\n"
## mu::pretty::vtables::fmt_traits(traits)
always => "{join([fmt_trait(each(traits).0, each(traits).1) for sorted(traits by each(traits).0.0)], "")}\n"
## mu::pretty::vtables::fmt_trait_name(trait_name)
always => "trait{get_internal(trait_name.0)}"
## mu::pretty::vtables::fmt_trait(trait_name, methods)
always => "{fmt_trait_name(trait_name)} {{ {join(sorted([fmt_trait_method_name(each(methods)) for methods]), ", ")} }}\n"
## mu::pretty::vtables::fmt_trait_method_name(method)
always => "m{get_internal(method.0)}"
## mu::pretty::fmt_program(prog)
always => "{fmt_comptypes(after fmt_functions(prog)([]))}{fmt_traits(prog.traits)}{fmt_vtables(prog.vtables)}{fmt_functions(prog, [])}{fmt_globals(prog.globals)}"
## mu::pretty::dump_program(prog)
always => () ; _print("{fmt_program(prog)}\n")
"""


def pushed(o):
    """the result and what is added to the list of composite types"""
    f, s = o.st.store.get(("arg", "comptypes")), tool.cshow(tool.reduce(o.st.facts, o.val))
    f = None if f is None else tool.cshow(tool.reduce(o.st.facts, f))
    return s if f in (None, "comptypes") else s + " ; comptypes := " + f


def check(c):
    P = c.prog(*tool.ALL)
    heads = [tool.sig(b.split("\n", 1)[0])[0] for b in T.strip().split("## ")[1:]]
    tool.SHOWN |= {"fmt_functions"}
    n = book(c, T, heads + ["Type::layout", "LayoutStrategy::meta_kind"],
             shows=[("get_comptype_index", pushed), ("fmt_comptypes", tool.whiles(None, [X + "ty::fmt_comptype"])), (X + "dump_program", tool.effects("_print", "std::io::_print", order=True))])
    c.floor("printing functions", n, 42)
