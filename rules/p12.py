"""P12: calls: ABI, frames, arguments, in-place passing, function and vtable lookup."""
import sp, tool

META = dict(rule="Decision table of the specification, one step at a time: for each case of one call, the result, what it leaves in every mutable argument, and the other steps it takes, in order; on every path.")
T = r"""
## Machine::eval_call(self, callee, caller_conv, arguments, caller_ret, next_block, unwind_block)
always => Ok(()) ; self := create_frame'{.thread := create_frame'.thread{.stack := push(create_frame'.thread.stack, create_frame.Ok.0)}} ; create_frame(self, callee, BackToCaller{next_block: next_block, unwind_block: unwind_block, ret_val_ptr: caller_ret.0.ptr.thin_pointer}, caller_conv, caller_ret.1, arguments)?
## Machine::eval_argument(self, val)
val is InPlace => Ok((place_load.Ok.0, eval_place.Ok.0.1)) ; self := prepare_for_inplace_passing' ; eval_place(self, val.InPlace.0)? ; place_load(eval_place', eval_place.Ok.0.0, eval_place.Ok.0.1)? ; prepare_for_inplace_passing(place_load', eval_place.Ok.0.0, eval_place.Ok.0.1)?
val is ByValue => Ok(eval_value.Ok.0) ; self := eval_value' ; eval_value(self, val.ByValue.0)?
## Machine::create_frame(self, func, stack_pop_action, caller_conv, caller_ret_ty, caller_args)
not caller_conv == func.calling_convention => Err(Ub("call ABI violation: calling conventions are not the same"))
caller_conv == func.calling_convention & check_abi_compatibility(caller_ret_ty, get(func.locals, func.ret).Some.0) & not len(caller_args) == len(func.args) => Err(Ub("call ABI violation: number of arguments does not agree"))
caller_conv == func.calling_convention & check_abi_compatibility(caller_ret_ty, get(func.locals, func.ret).Some.0) & len(caller_args) == len(func.args) & forall func.args: storage_live(~storage_live'1, ~storage_live'2, each(func.args)) is Ok & forall zip(func.args, caller_args): check_abi_compatibility(each(caller_args).1, get(func.locals, each(func.args)).Some.0) && layout(each(caller_args).1) is Sized && typed_store(~self{.mem := loop#2}, get(loop.locals, each(func.args)).Some.0, each(caller_args).0, each(caller_args).1, layout(each(caller_args).1).Sized.1, None) is Ok => Ok(loop) ; self := loop#3 ; storage_live(StackFrame{func: func, locals: [], stack_pop_action: stack_pop_action, next_block: func.start, next_stmt: 0, extra: new_call(M)}, self.mem, func.ret)? ; loop = fold(func.args, (storage_live'1), each(func.args), (after StackFrame::storage_live(acc0))) ; loop#2 = fold(func.args, (storage_live'2), each(func.args), (after StackFrame::storage_live(acc0))) ; loop#3 = fold(zip(func.args, caller_args), (self{.mem := loop#2}), (each(func.args), each(caller_args)), (after Machine::typed_store(acc0))) ; for all func.args: storage_live(~storage_live'1, ~storage_live'2, each(func.args)) is Ok ; for all zip(func.args, caller_args): check_abi_compatibility(each(caller_args).1, get(func.locals, each(func.args)).Some.0) && layout(each(caller_args).1) is Sized && typed_store(~self{.mem := loop#2}, get(loop.locals, each(func.args)).Some.0, each(caller_args).0, each(caller_args).1, layout(each(caller_args).1).Sized.1, None) is Ok
caller_conv == func.calling_convention & check_abi_compatibility(caller_ret_ty, get(func.locals, func.ret).Some.0) & len(caller_args) == len(func.args) & not check_abi_compatibility(each(caller_args).1, get(func.locals, each(func.args)).Some.0) => Err(Ub("call ABI violation: argument types are not compatible"))
caller_conv == func.calling_convention & not check_abi_compatibility(caller_ret_ty, get(func.locals, func.ret).Some.0) => Err(Ub("call ABI violation: return types are not compatible"))
## Machine::prepare_for_inplace_passing(self, place, ty)
layout(ty) is Sized => Ok(()) ; self := self{.mem := deinit'} ; deinit(self.mem, place.ptr.thin_pointer, layout(ty).Sized.0, layout(ty).Sized.1)?
## check_abi_compatibility(caller_ty, callee_ty)
not caller_ty is Int & not caller_ty is Bool & not caller_ty is Ptr & not caller_ty is Tuple & not caller_ty is Array & not caller_ty is Union & not caller_ty is Enum => False
caller_ty is Enum & not callee_ty is Enum => False
caller_ty is Enum & callee_ty is Enum & len(callee_ty.Enum.variants) == len(caller_ty.Enum.variants) & callee_ty.Enum.discriminator == caller_ty.Enum.discriminator & callee_ty.Enum.discriminant_ty == caller_ty.Enum.discriminant_ty & callee_ty.Enum.size == caller_ty.Enum.size & callee_ty.Enum.align == caller_ty.Enum.align & forall caller_ty.Enum.variants: check_abi_compatibility(each(caller_ty.Enum.variants).1.ty, get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0).Some.0.ty) && each(caller_ty.Enum.variants).1.tagger == get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0).Some.0.tagger && get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0) is Some => True ; for all caller_ty.Enum.variants: check_abi_compatibility(each(caller_ty.Enum.variants).1.ty, get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0).Some.0.ty) && each(caller_ty.Enum.variants).1.tagger == get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0).Some.0.tagger && get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0) is Some
caller_ty is Enum & callee_ty is Enum & len(callee_ty.Enum.variants) == len(caller_ty.Enum.variants) & callee_ty.Enum.discriminator == caller_ty.Enum.discriminator & callee_ty.Enum.discriminant_ty == caller_ty.Enum.discriminant_ty & callee_ty.Enum.size == caller_ty.Enum.size & not callee_ty.Enum.align == caller_ty.Enum.align & forall caller_ty.Enum.variants: check_abi_compatibility(each(caller_ty.Enum.variants).1.ty, get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0).Some.0.ty) && each(caller_ty.Enum.variants).1.tagger == get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0).Some.0.tagger && get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0) is Some => False ; for all caller_ty.Enum.variants: check_abi_compatibility(each(caller_ty.Enum.variants).1.ty, get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0).Some.0.ty) && each(caller_ty.Enum.variants).1.tagger == get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0).Some.0.tagger && get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0) is Some
caller_ty is Enum & callee_ty is Enum & len(callee_ty.Enum.variants) == len(caller_ty.Enum.variants) & callee_ty.Enum.discriminator == caller_ty.Enum.discriminator & callee_ty.Enum.discriminant_ty == caller_ty.Enum.discriminant_ty & not callee_ty.Enum.size == caller_ty.Enum.size & forall caller_ty.Enum.variants: check_abi_compatibility(each(caller_ty.Enum.variants).1.ty, get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0).Some.0.ty) && each(caller_ty.Enum.variants).1.tagger == get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0).Some.0.tagger && get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0) is Some => False ; for all caller_ty.Enum.variants: check_abi_compatibility(each(caller_ty.Enum.variants).1.ty, get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0).Some.0.ty) && each(caller_ty.Enum.variants).1.tagger == get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0).Some.0.tagger && get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0) is Some
caller_ty is Enum & callee_ty is Enum & len(callee_ty.Enum.variants) == len(caller_ty.Enum.variants) & callee_ty.Enum.discriminator == caller_ty.Enum.discriminator & not callee_ty.Enum.discriminant_ty == caller_ty.Enum.discriminant_ty & forall caller_ty.Enum.variants: check_abi_compatibility(each(caller_ty.Enum.variants).1.ty, get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0).Some.0.ty) && each(caller_ty.Enum.variants).1.tagger == get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0).Some.0.tagger && get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0) is Some => False ; for all caller_ty.Enum.variants: check_abi_compatibility(each(caller_ty.Enum.variants).1.ty, get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0).Some.0.ty) && each(caller_ty.Enum.variants).1.tagger == get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0).Some.0.tagger && get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0) is Some
caller_ty is Enum & callee_ty is Enum & len(callee_ty.Enum.variants) == len(caller_ty.Enum.variants) & not callee_ty.Enum.discriminator == caller_ty.Enum.discriminator & forall caller_ty.Enum.variants: check_abi_compatibility(each(caller_ty.Enum.variants).1.ty, get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0).Some.0.ty) && each(caller_ty.Enum.variants).1.tagger == get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0).Some.0.tagger && get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0) is Some => False ; for all caller_ty.Enum.variants: check_abi_compatibility(each(caller_ty.Enum.variants).1.ty, get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0).Some.0.ty) && each(caller_ty.Enum.variants).1.tagger == get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0).Some.0.tagger && get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0) is Some
caller_ty is Enum & callee_ty is Enum & len(callee_ty.Enum.variants) == len(caller_ty.Enum.variants) & get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0) is Some & not check_abi_compatibility(each(caller_ty.Enum.variants).1.ty, get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0).Some.0.ty) => False
caller_ty is Enum & callee_ty is Enum & len(callee_ty.Enum.variants) == len(caller_ty.Enum.variants) & get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0) is Some & check_abi_compatibility(each(caller_ty.Enum.variants).1.ty, get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0).Some.0.ty) & not each(caller_ty.Enum.variants).1.tagger == get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0).Some.0.tagger => False
caller_ty is Enum & callee_ty is Enum & len(callee_ty.Enum.variants) == len(caller_ty.Enum.variants) & get(callee_ty.Enum.variants, each(caller_ty.Enum.variants).0) is None => False
caller_ty is Enum & callee_ty is Enum & not len(callee_ty.Enum.variants) == len(caller_ty.Enum.variants) => False
caller_ty is Union & not callee_ty is Union => False
caller_ty is Union & callee_ty is Union & len(callee_ty.Union.fields) == len(caller_ty.Union.fields) & callee_ty.Union.chunks == caller_ty.Union.chunks & callee_ty.Union.size == caller_ty.Union.size & callee_ty.Union.align == caller_ty.Union.align & forall zip(caller_ty.Union.fields, callee_ty.Union.fields): check_abi_compatibility(each(caller_ty.Union.fields).1, each(callee_ty.Union.fields).1) && each(callee_ty.Union.fields).0 == each(caller_ty.Union.fields).0 => True ; for all zip(caller_ty.Union.fields, callee_ty.Union.fields): check_abi_compatibility(each(caller_ty.Union.fields).1, each(callee_ty.Union.fields).1) && each(callee_ty.Union.fields).0 == each(caller_ty.Union.fields).0
caller_ty is Union & callee_ty is Union & len(callee_ty.Union.fields) == len(caller_ty.Union.fields) & callee_ty.Union.chunks == caller_ty.Union.chunks & callee_ty.Union.size == caller_ty.Union.size & not callee_ty.Union.align == caller_ty.Union.align & forall zip(caller_ty.Union.fields, callee_ty.Union.fields): check_abi_compatibility(each(caller_ty.Union.fields).1, each(callee_ty.Union.fields).1) && each(callee_ty.Union.fields).0 == each(caller_ty.Union.fields).0 => False ; for all zip(caller_ty.Union.fields, callee_ty.Union.fields): check_abi_compatibility(each(caller_ty.Union.fields).1, each(callee_ty.Union.fields).1) && each(callee_ty.Union.fields).0 == each(caller_ty.Union.fields).0
caller_ty is Union & callee_ty is Union & len(callee_ty.Union.fields) == len(caller_ty.Union.fields) & callee_ty.Union.chunks == caller_ty.Union.chunks & not callee_ty.Union.size == caller_ty.Union.size & forall zip(caller_ty.Union.fields, callee_ty.Union.fields): check_abi_compatibility(each(caller_ty.Union.fields).1, each(callee_ty.Union.fields).1) && each(callee_ty.Union.fields).0 == each(caller_ty.Union.fields).0 => False ; for all zip(caller_ty.Union.fields, callee_ty.Union.fields): check_abi_compatibility(each(caller_ty.Union.fields).1, each(callee_ty.Union.fields).1) && each(callee_ty.Union.fields).0 == each(caller_ty.Union.fields).0
caller_ty is Union & callee_ty is Union & len(callee_ty.Union.fields) == len(caller_ty.Union.fields) & not callee_ty.Union.chunks == caller_ty.Union.chunks & forall zip(caller_ty.Union.fields, callee_ty.Union.fields): check_abi_compatibility(each(caller_ty.Union.fields).1, each(callee_ty.Union.fields).1) && each(callee_ty.Union.fields).0 == each(caller_ty.Union.fields).0 => False ; for all zip(caller_ty.Union.fields, callee_ty.Union.fields): check_abi_compatibility(each(caller_ty.Union.fields).1, each(callee_ty.Union.fields).1) && each(callee_ty.Union.fields).0 == each(caller_ty.Union.fields).0
caller_ty is Union & callee_ty is Union & len(callee_ty.Union.fields) == len(caller_ty.Union.fields) & not each(callee_ty.Union.fields).0 == each(caller_ty.Union.fields).0 => False
caller_ty is Union & callee_ty is Union & len(callee_ty.Union.fields) == len(caller_ty.Union.fields) & each(callee_ty.Union.fields).0 == each(caller_ty.Union.fields).0 & not check_abi_compatibility(each(caller_ty.Union.fields).1, each(callee_ty.Union.fields).1) => False
caller_ty is Union & callee_ty is Union & not len(callee_ty.Union.fields) == len(caller_ty.Union.fields) => False
caller_ty is Array & not callee_ty is Array => False
caller_ty is Array & callee_ty is Array & check_abi_compatibility(caller_ty.Array.elem, callee_ty.Array.elem) & callee_ty.Array.count == caller_ty.Array.count => True
caller_ty is Array & callee_ty is Array & check_abi_compatibility(caller_ty.Array.elem, callee_ty.Array.elem) & not callee_ty.Array.count == caller_ty.Array.count => False
caller_ty is Array & callee_ty is Array & not check_abi_compatibility(caller_ty.Array.elem, callee_ty.Array.elem) => False
caller_ty is Tuple & not callee_ty is Tuple => False
caller_ty is Tuple & callee_ty is Tuple & caller_ty.Tuple.unsized_field is None & callee_ty.Tuple.unsized_field is None & len(callee_ty.Tuple.sized_fields) == len(caller_ty.Tuple.sized_fields) & head_size_and_align(callee_ty.Tuple.sized_head_layout).0 == head_size_and_align(caller_ty.Tuple.sized_head_layout).0 & head_size_and_align(callee_ty.Tuple.sized_head_layout).1 == head_size_and_align(caller_ty.Tuple.sized_head_layout).1 & forall zip(caller_ty.Tuple.sized_fields, callee_ty.Tuple.sized_fields): check_abi_compatibility(each(caller_ty.Tuple.sized_fields).1, each(callee_ty.Tuple.sized_fields).1) && each(callee_ty.Tuple.sized_fields).0 == each(caller_ty.Tuple.sized_fields).0 => True ; for all zip(caller_ty.Tuple.sized_fields, callee_ty.Tuple.sized_fields): check_abi_compatibility(each(caller_ty.Tuple.sized_fields).1, each(callee_ty.Tuple.sized_fields).1) && each(callee_ty.Tuple.sized_fields).0 == each(caller_ty.Tuple.sized_fields).0
caller_ty is Tuple & callee_ty is Tuple & caller_ty.Tuple.unsized_field is None & callee_ty.Tuple.unsized_field is None & len(callee_ty.Tuple.sized_fields) == len(caller_ty.Tuple.sized_fields) & head_size_and_align(callee_ty.Tuple.sized_head_layout).0 == head_size_and_align(caller_ty.Tuple.sized_head_layout).0 & not head_size_and_align(callee_ty.Tuple.sized_head_layout).1 == head_size_and_align(caller_ty.Tuple.sized_head_layout).1 & forall zip(caller_ty.Tuple.sized_fields, callee_ty.Tuple.sized_fields): check_abi_compatibility(each(caller_ty.Tuple.sized_fields).1, each(callee_ty.Tuple.sized_fields).1) && each(callee_ty.Tuple.sized_fields).0 == each(caller_ty.Tuple.sized_fields).0 => False ; for all zip(caller_ty.Tuple.sized_fields, callee_ty.Tuple.sized_fields): check_abi_compatibility(each(caller_ty.Tuple.sized_fields).1, each(callee_ty.Tuple.sized_fields).1) && each(callee_ty.Tuple.sized_fields).0 == each(caller_ty.Tuple.sized_fields).0
caller_ty is Tuple & callee_ty is Tuple & caller_ty.Tuple.unsized_field is None & callee_ty.Tuple.unsized_field is None & len(callee_ty.Tuple.sized_fields) == len(caller_ty.Tuple.sized_fields) & not head_size_and_align(callee_ty.Tuple.sized_head_layout).0 == head_size_and_align(caller_ty.Tuple.sized_head_layout).0 & forall zip(caller_ty.Tuple.sized_fields, callee_ty.Tuple.sized_fields): check_abi_compatibility(each(caller_ty.Tuple.sized_fields).1, each(callee_ty.Tuple.sized_fields).1) && each(callee_ty.Tuple.sized_fields).0 == each(caller_ty.Tuple.sized_fields).0 => False ; for all zip(caller_ty.Tuple.sized_fields, callee_ty.Tuple.sized_fields): check_abi_compatibility(each(caller_ty.Tuple.sized_fields).1, each(callee_ty.Tuple.sized_fields).1) && each(callee_ty.Tuple.sized_fields).0 == each(caller_ty.Tuple.sized_fields).0
caller_ty is Tuple & callee_ty is Tuple & caller_ty.Tuple.unsized_field is None & callee_ty.Tuple.unsized_field is None & len(callee_ty.Tuple.sized_fields) == len(caller_ty.Tuple.sized_fields) & not each(callee_ty.Tuple.sized_fields).0 == each(caller_ty.Tuple.sized_fields).0 => False
caller_ty is Tuple & callee_ty is Tuple & caller_ty.Tuple.unsized_field is None & callee_ty.Tuple.unsized_field is None & len(callee_ty.Tuple.sized_fields) == len(caller_ty.Tuple.sized_fields) & each(callee_ty.Tuple.sized_fields).0 == each(caller_ty.Tuple.sized_fields).0 & not check_abi_compatibility(each(caller_ty.Tuple.sized_fields).1, each(callee_ty.Tuple.sized_fields).1) => False
caller_ty is Tuple & callee_ty is Tuple & caller_ty.Tuple.unsized_field is None & callee_ty.Tuple.unsized_field is None & not len(callee_ty.Tuple.sized_fields) == len(caller_ty.Tuple.sized_fields) => False
caller_ty is Ptr & not callee_ty is Ptr => False
caller_ty is Ptr & callee_ty is Ptr & meta_kind(callee_ty.Ptr.0) == meta_kind(caller_ty.Ptr.0) => True
caller_ty is Ptr & callee_ty is Ptr & not meta_kind(callee_ty.Ptr.0) == meta_kind(caller_ty.Ptr.0) => False
caller_ty is Bool & not callee_ty is Bool => False
caller_ty is Bool & callee_ty is Bool => True
caller_ty is Int & not callee_ty is Int => False
caller_ty is Int & callee_ty is Int & callee_ty.Int.0 == caller_ty.Int.0 => True
caller_ty is Int & callee_ty is Int & not callee_ty.Int.0 == caller_ty.Int.0 => False
## Machine::fn_from_ptr(self, ptr)
not ptr is Ptr => Err(Ub("trying to look up a function based on a non-pointer value"))
ptr is Ptr & ptr.Ptr.0.metadata is Some => Err(Ub("invalid pointer for function lookup"))
ptr is Ptr & ptr.Ptr.0.metadata is None & forall self.fn_ptrs: !(each(self.fn_ptrs).1 == ptr.Ptr.0.thin_pointer) => Err(Ub("invalid pointer for function lookup"))
ptr is Ptr & ptr.Ptr.0.metadata is None & each(self.fn_ptrs).1 == ptr.Ptr.0.thin_pointer => Ok(get(self.prog.functions, each(self.fn_ptrs).0).Some.0)
## Machine::vtable_from_ptr(self, ptr)
forall self.vtable_ptrs: !(each(self.vtable_ptrs).1 == ptr) => Err(Ub("invalid pointer for vtable lookup"))
each(self.vtable_ptrs).1 == ptr => Ok(get(self.prog.vtables, each(self.vtable_ptrs).0).Some.0)
"""


def check(c):
    n = sp.book(c, T)
    c.floor("functions", n, 7)
