"""P22: intrinsics."""
import sp, tool

META = dict(rule="Decision table of the specification, one step at a time: for each case of one intrinsic, the result, what it leaves in every mutable argument, and the other steps it takes, in order; on every path.")
T = r"""
## Machine::eval_intrinsic(self, intrinsic, arguments, ret_ty)
intrinsic is GetUnwindPayload & not len(arguments) == 0 => Err(Ub("invalid number of arguments for `GetUnwindPayload` intrinsic"))
intrinsic is GetUnwindPayload & len(arguments) == 0 & not ret_ty is Ptr => Err(Ub("invalid return type for `GetUnwindPayload` intrinsic"))
intrinsic is GetUnwindPayload & len(arguments) == 0 & ret_ty is Ptr & meta_kind(ret_ty.Ptr.0) is Some => Err(Ub("invalid return type for `GetUnwindPayload` intrinsic"))
intrinsic is GetUnwindPayload & len(arguments) == 0 & ret_ty is Ptr & meta_kind(ret_ty.Ptr.0) is None & len(self.thread.unwind_payloads) == 0 => Err(Ub("GetUnwindPayload: the payload stack is empty"))
intrinsic is GetUnwindPayload & len(arguments) == 0 & ret_ty is Ptr & meta_kind(ret_ty.Ptr.0) is None & not len(self.thread.unwind_payloads) == 0 => Ok(Ptr(Pointer{thin_pointer: self.thread.unwind_payloads[(len(self.thread.unwind_payloads) + -1)], metadata: None}))
intrinsic is PointerWithExposedProvenance & not (len(arguments) + -1) == 0 => Err(Ub("invalid number of arguments for `PointerWithExposedProvenance` intrinsic"))
intrinsic is PointerWithExposedProvenance & (len(arguments) + -1) == 0 & not arguments[0].0 is Int => Err(Ub("invalid argument for `PointerWithExposedProvenance` intrinsic: not an integer"))
intrinsic is PointerWithExposedProvenance & (len(arguments) + -1) == 0 & arguments[0].0 is Int & not ret_ty is Ptr => Err(Ub("invalid return type for `PointerWithExposedProvenance` intrinsic"))
intrinsic is PointerWithExposedProvenance & (len(arguments) + -1) == 0 & arguments[0].0 is Int & ret_ty is Ptr & meta_kind(ret_ty.Ptr.0) is Some => Err(Ub("unsized pointee requested for `PointerWithExposedProvenance` intrinsic"))
intrinsic is PointerWithExposedProvenance & (len(arguments) + -1) == 0 & arguments[0].0 is Int & ret_ty is Ptr & meta_kind(ret_ty.Ptr.0) is None => Ok(Ptr(Pointer{thin_pointer: int2ptr(self.intptrcast, arguments[0].0.Int.0).Ok.0, metadata: None})) ; int2ptr(self.intptrcast, arguments[0].0.Int.0)?
intrinsic is PointerExposeProvenance & not (len(arguments) + -1) == 0 => Err(Ub("invalid number of arguments for `PointerExposeProvenance` intrinsic"))
intrinsic is PointerExposeProvenance & (len(arguments) + -1) == 0 & not arguments[0].0 is Ptr => Err(Ub("invalid argument for `PointerExposeProvenance` intrinsic: not a thin pointer"))
intrinsic is PointerExposeProvenance & (len(arguments) + -1) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is Some => Err(Ub("invalid argument for `PointerExposeProvenance` intrinsic: not a thin pointer"))
intrinsic is PointerExposeProvenance & (len(arguments) + -1) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is None & ret_ty is Int & ret_ty.Int.0.signed is Unsigned & not Target::PTR_SIZE == ret_ty.Int.0.size => Err(Ub("invalid return type for `PointerExposeProvenance` intrinsic"))
intrinsic is PointerExposeProvenance & (len(arguments) + -1) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is None & ret_ty is Int & not ret_ty.Int.0.signed is Unsigned => Err(Ub("invalid return type for `PointerExposeProvenance` intrinsic"))
intrinsic is PointerExposeProvenance & (len(arguments) + -1) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is None & not ret_ty is Int => Err(Ub("invalid return type for `PointerExposeProvenance` intrinsic"))
intrinsic is PointerExposeProvenance & (len(arguments) + -1) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is None & ret_ty is Int & ret_ty.Int.0.signed is Unsigned & Target::PTR_SIZE == ret_ty.Int.0.size => Ok(Int(arguments[0].0.Ptr.0.thin_pointer.addr)) ; self := self{.intptrcast := expose'} ; expose(self.intptrcast, arguments[0].0.Ptr.0.thin_pointer)
intrinsic is Lock & intrinsic.Lock.0 is Create & (len(arguments) + -1) >= 0 => Err(Ub("invalid number of arguments for `Create` lock intrinsic"))
intrinsic is Lock & intrinsic.Lock.0 is Create & not (len(arguments) + -1) >= 0 & not ret_ty is Int => Err(Ub("invalid return type for `Create` lock intrinsic"))
intrinsic is Lock & intrinsic.Lock.0 is Create & not (len(arguments) + -1) >= 0 & ret_ty is Int => Ok(Int(lock_create)) ; self := lock_create' ; lock_create(self)
intrinsic is Lock & intrinsic.Lock.0 is Release & not (len(arguments) + -1) == 0 => Err(Ub("invalid number of arguments for `Release` lock intrinsic"))
intrinsic is Lock & intrinsic.Lock.0 is Release & (len(arguments) + -1) == 0 & not arguments[0].0 is Int => Err(Ub("invalid first argument to `Release` lock intrinsic"))
intrinsic is Lock & intrinsic.Lock.0 is Release & (len(arguments) + -1) == 0 & arguments[0].0 is Int & not ret_ty == unit_type() => Err(Ub("invalid return type for `Release` lock intrinsic"))
intrinsic is Lock & intrinsic.Lock.0 is Release & (len(arguments) + -1) == 0 & arguments[0].0 is Int & ret_ty == unit_type() => Ok(Tuple([])) ; self := lock_release' ; lock_release(self, arguments[0].0.Int.0)?
intrinsic is Lock & intrinsic.Lock.0 is Acquire & not (len(arguments) + -1) == 0 => Err(Ub("invalid number of arguments for `Acquire` lock intrinsic"))
intrinsic is Lock & intrinsic.Lock.0 is Acquire & (len(arguments) + -1) == 0 & not arguments[0].0 is Int => Err(Ub("invalid first argument to `Acquire` lock intrinsic"))
intrinsic is Lock & intrinsic.Lock.0 is Acquire & (len(arguments) + -1) == 0 & arguments[0].0 is Int & not ret_ty == unit_type() => Err(Ub("invalid return type for `Acquire` lock intrinsic"))
intrinsic is Lock & intrinsic.Lock.0 is Acquire & (len(arguments) + -1) == 0 & arguments[0].0 is Int & ret_ty == unit_type() => Ok(Tuple([])) ; self := lock_acquire' ; lock_acquire(self, arguments[0].0.Int.0)?
intrinsic is AtomicFetchAndOp & not (len(arguments) + -2) == 0 => Err(Ub("invalid number of arguments for `AtomicFetchAndOp` intrinsic"))
intrinsic is AtomicFetchAndOp & (len(arguments) + -2) == 0 & not arguments[0].0 is Ptr => Err(Ub("invalid first argument to `AtomicFetchAndOp` intrinsic: not a thin pointer"))
intrinsic is AtomicFetchAndOp & (len(arguments) + -2) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is Some => Err(Ub("invalid first argument to `AtomicFetchAndOp` intrinsic: not a thin pointer"))
intrinsic is AtomicFetchAndOp & (len(arguments) + -2) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is None & not arguments[1].1 == ret_ty => Err(Ub("invalid second argument to `AtomicFetchAndOp` intrinsic: not same type as return value"))
intrinsic is AtomicFetchAndOp & (len(arguments) + -2) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is None & arguments[1].1 == ret_ty & not ret_ty is Int => Err(Ub("invalid return type for `AtomicFetchAndOp` intrinsic: only works with integers"))
intrinsic is AtomicFetchAndOp & (len(arguments) + -2) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is None & arguments[1].1 == ret_ty & ret_ty is Int & layout(ret_ty) is Sized & is_power_of_two(layout(ret_ty).Sized.0) & (-1*Target::MAX_ATOMIC_SIZE + layout(ret_ty).Sized.0 + -1) >= 0 => Err(Ub("invalid return type for `AtomicFetchAndOp` intrinsic: size too big"))
intrinsic is AtomicFetchAndOp & (len(arguments) + -2) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is None & arguments[1].1 == ret_ty & ret_ty is Int & layout(ret_ty) is Sized & is_power_of_two(layout(ret_ty).Sized.0) & not (-1*Target::MAX_ATOMIC_SIZE + layout(ret_ty).Sized.0 + -1) >= 0 & arguments[1].0 is Int & typed_load.Ok.0 is Int => Ok(typed_load.Ok.0) ; self := typed_store' ; typed_load(self, arguments[0].0.Ptr.0.thin_pointer, ret_ty, layout(ret_ty).Sized.0, Atomic)? ; typed_store(typed_load', arguments[0].0.Ptr.0.thin_pointer, Int(eval_int_bin_op(intrinsic.AtomicFetchAndOp.0, typed_load.Ok.0.Int.0, arguments[1].0.Int.0, ret_ty.Int.0).Ok.0), ret_ty, layout(ret_ty).Sized.0, Atomic)? ; eval_int_bin_op(intrinsic.AtomicFetchAndOp.0, typed_load.Ok.0.Int.0, arguments[1].0.Int.0, ret_ty.Int.0)?
intrinsic is AtomicCompareExchange & not (len(arguments) + -3) == 0 => Err(Ub("invalid number of arguments for `AtomicCompareExchange` intrinsic"))
intrinsic is AtomicCompareExchange & (len(arguments) + -3) == 0 & not arguments[0].0 is Ptr => Err(Ub("invalid first argument to `AtomicCompareExchange` intrinsic: not a thin pointer"))
intrinsic is AtomicCompareExchange & (len(arguments) + -3) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is Some => Err(Ub("invalid first argument to `AtomicCompareExchange` intrinsic: not a thin pointer"))
intrinsic is AtomicCompareExchange & (len(arguments) + -3) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is None & not arguments[1].1 == ret_ty => Err(Ub("invalid second argument to `AtomicCompareExchange` intrinsic: not same type as return value"))
intrinsic is AtomicCompareExchange & (len(arguments) + -3) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is None & arguments[1].1 == ret_ty & not arguments[2].1 == ret_ty => Err(Ub("invalid third argument to `AtomicCompareExchange` intrinsic: not same type as return value"))
intrinsic is AtomicCompareExchange & (len(arguments) + -3) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is None & arguments[1].1 == ret_ty & arguments[2].1 == ret_ty & not ret_ty is Int => Err(Ub("invalid return type for `Intrinis::AtomicCompareExchange`: only works with integers"))
intrinsic is AtomicCompareExchange & (len(arguments) + -3) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is None & arguments[1].1 == ret_ty & arguments[2].1 == ret_ty & ret_ty is Int & layout(ret_ty) is Sized & is_power_of_two(layout(ret_ty).Sized.0) & (-1*Target::MAX_ATOMIC_SIZE + layout(ret_ty).Sized.0 + -1) >= 0 => Err(Ub("invalid return type for `AtomicCompareExchange` intrinsic: size too big"))
intrinsic is AtomicCompareExchange & (len(arguments) + -3) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is None & arguments[1].1 == ret_ty & arguments[2].1 == ret_ty & ret_ty is Int & layout(ret_ty) is Sized & is_power_of_two(layout(ret_ty).Sized.0) & not (-1*Target::MAX_ATOMIC_SIZE + layout(ret_ty).Sized.0 + -1) >= 0 & arguments[1].0 == typed_load.Ok.0 => Ok(typed_load.Ok.0) ; self := typed_store' ; typed_load(self, arguments[0].0.Ptr.0.thin_pointer, ret_ty, layout(ret_ty).Sized.0, Atomic)? ; typed_store(typed_load', arguments[0].0.Ptr.0.thin_pointer, arguments[2].0, ret_ty, layout(ret_ty).Sized.0, Atomic)?
intrinsic is AtomicCompareExchange & (len(arguments) + -3) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is None & arguments[1].1 == ret_ty & arguments[2].1 == ret_ty & ret_ty is Int & layout(ret_ty) is Sized & is_power_of_two(layout(ret_ty).Sized.0) & not (-1*Target::MAX_ATOMIC_SIZE + layout(ret_ty).Sized.0 + -1) >= 0 & not arguments[1].0 == typed_load.Ok.0 => Ok(typed_load.Ok.0) ; self := typed_load' ; typed_load(self, arguments[0].0.Ptr.0.thin_pointer, ret_ty, layout(ret_ty).Sized.0, Atomic)?
intrinsic is AtomicLoad & not (len(arguments) + -1) == 0 => Err(Ub("invalid number of arguments for `AtomicLoad` intrinsic"))
intrinsic is AtomicLoad & (len(arguments) + -1) == 0 & not arguments[0].0 is Ptr => Err(Ub("invalid first argument to `AtomicLoad` intrinsic: not a thin pointer"))
intrinsic is AtomicLoad & (len(arguments) + -1) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is Some => Err(Ub("invalid first argument to `AtomicLoad` intrinsic: not a thin pointer"))
intrinsic is AtomicLoad & (len(arguments) + -1) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is None & layout(ret_ty) is Sized & not is_power_of_two(layout(ret_ty).Sized.0) => Err(Ub("invalid return type for `AtomicLoad` intrinsic: size not power of two"))
intrinsic is AtomicLoad & (len(arguments) + -1) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is None & layout(ret_ty) is Sized & is_power_of_two(layout(ret_ty).Sized.0) & (-1*Target::MAX_ATOMIC_SIZE + layout(ret_ty).Sized.0 + -1) >= 0 => Err(Ub("invalid return type for `AtomicLoad` intrinsic: size too big"))
intrinsic is AtomicLoad & (len(arguments) + -1) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is None & layout(ret_ty) is Sized & is_power_of_two(layout(ret_ty).Sized.0) & not (-1*Target::MAX_ATOMIC_SIZE + layout(ret_ty).Sized.0 + -1) >= 0 => Ok(typed_load.Ok.0) ; self := typed_load' ; typed_load(self, arguments[0].0.Ptr.0.thin_pointer, ret_ty, layout(ret_ty).Sized.0, Atomic)?
intrinsic is AtomicStore & not (len(arguments) + -2) == 0 => Err(Ub("invalid number of arguments for `AtomicStore` intrinsic"))
intrinsic is AtomicStore & (len(arguments) + -2) == 0 & not arguments[0].0 is Ptr => Err(Ub("invalid first argument to `AtomicStore` intrinsic: not a thin pointer"))
intrinsic is AtomicStore & (len(arguments) + -2) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is Some => Err(Ub("invalid first argument to `AtomicStore` intrinsic: not a thin pointer"))
intrinsic is AtomicStore & (len(arguments) + -2) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is None & not layout(arguments[1].1) is Sized => Err(Ub("invalid second argument to `AtomicStore` intrinsic: unsized type"))
intrinsic is AtomicStore & (len(arguments) + -2) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is None & layout(arguments[1].1) is Sized & not is_power_of_two(layout(arguments[1].1).Sized.0) => Err(Ub("invalid second argument to `AtomicStore` intrinsic: size not power of two"))
intrinsic is AtomicStore & (len(arguments) + -2) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is None & layout(arguments[1].1) is Sized & is_power_of_two(layout(arguments[1].1).Sized.0) & (-1*Target::MAX_ATOMIC_SIZE + layout(arguments[1].1).Sized.0 + -1) >= 0 => Err(Ub("invalid second argument to `AtomicStore` intrinsic: size too big"))
intrinsic is AtomicStore & (len(arguments) + -2) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is None & layout(arguments[1].1) is Sized & is_power_of_two(layout(arguments[1].1).Sized.0) & not (-1*Target::MAX_ATOMIC_SIZE + layout(arguments[1].1).Sized.0 + -1) >= 0 & not ret_ty == unit_type() => Err(Ub("invalid return type for `AtomicStore` intrinsic"))
intrinsic is AtomicStore & (len(arguments) + -2) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is None & layout(arguments[1].1) is Sized & is_power_of_two(layout(arguments[1].1).Sized.0) & not (-1*Target::MAX_ATOMIC_SIZE + layout(arguments[1].1).Sized.0 + -1) >= 0 & ret_ty == unit_type() => Ok(Tuple([])) ; self := typed_store' ; typed_store(self, arguments[0].0.Ptr.0.thin_pointer, arguments[1].0, arguments[1].1, layout(arguments[1].1).Sized.0, Atomic)?
intrinsic is RawEq & not (len(arguments) + -2) == 0 => Err(Ub("invalid number of arguments for `RawEq` intrinsic"))
intrinsic is RawEq & (len(arguments) + -2) == 0 & not ret_ty is Bool => Err(Ub("invalid return type for `RawEq` intrinsic"))
intrinsic is RawEq & (len(arguments) + -2) == 0 & ret_ty is Bool & not arguments[0].1 == arguments[1].1 => Err(Ub("invalid arguments to `RawEq` intrinsic: types of arguments are not identical"))
intrinsic is RawEq & (len(arguments) + -2) == 0 & ret_ty is Bool & arguments[0].1 == arguments[1].1 & not arguments[0].0 is Ptr => Err(Ub("invalid first argument to `RawEq` intrinsic: not a pointer"))
intrinsic is RawEq & (len(arguments) + -2) == 0 & ret_ty is Bool & arguments[0].1 == arguments[1].1 & arguments[0].0 is Ptr & not arguments[1].0 is Ptr => Err(Ub("invalid second argument to `RawEq` intrinsic: not a pointer"))
intrinsic is RawEq & (len(arguments) + -2) == 0 & ret_ty is Bool & arguments[0].1 == arguments[1].1 & arguments[0].0 is Ptr & arguments[1].0 is Ptr & not arguments[0].1 is Ptr => Err(Ub("invalid argument type to `RawEq` intrinsic: not a pointer"))
intrinsic is RawEq & (len(arguments) + -2) == 0 & ret_ty is Bool & arguments[0].1 == arguments[1].1 & arguments[0].0 is Ptr & arguments[1].0 is Ptr & arguments[0].1 is Ptr => Ok(Bool(load_raw_data#2.Ok.0 == load_raw_data.Ok.0)) ; self := load_raw_data#2' ; load_raw_data(self, arguments[0].0.Ptr.0, arguments[0].1.Ptr.0)? ; load_raw_data#2(load_raw_data', arguments[1].0.Ptr.0, arguments[0].1.Ptr.0)?
intrinsic is Join & not (len(arguments) + -1) == 0 => Err(Ub("invalid number of arguments for `Join` intrinsic"))
intrinsic is Join & (len(arguments) + -1) == 0 & not arguments[0].0 is Int => Err(Ub("invalid first argument to `Join` intrinsic: not an integer"))
intrinsic is Join & (len(arguments) + -1) == 0 & arguments[0].0 is Int & not ret_ty == unit_type() => Err(Ub("invalid return type for `Join` intrinsic"))
intrinsic is Join & (len(arguments) + -1) == 0 & arguments[0].0 is Int & ret_ty == unit_type() => Ok(Tuple([])) ; self := join' ; join(self, arguments[0].0.Int.0)?
intrinsic is Spawn & not (len(arguments) + -2) == 0 => Err(Ub("invalid number of arguments for `Spawn` intrinsic"))
intrinsic is Spawn & (len(arguments) + -2) == 0 & not arguments[1].1 is Ptr => Err(Ub("invalid second argument to `Spawn` intrinsic: not a pointer"))
intrinsic is Spawn & (len(arguments) + -2) == 0 & arguments[1].1 is Ptr & not ret_ty is Int => Err(Ub("invalid return type for `Spawn` intrinsic"))
intrinsic is Spawn & (len(arguments) + -2) == 0 & arguments[1].1 is Ptr & ret_ty is Int => Ok(Int(spawn.Ok.0)) ; self := spawn' ; spawn(self, fn_from_ptr(self, arguments[0].0).Ok.0, arguments[1].0, arguments[1].1)? ; fn_from_ptr(self, arguments[0].0)?
intrinsic is Deallocate & not (len(arguments) + -3) == 0 => Err(Ub("invalid number of arguments for `Deallocate` intrinsic"))
intrinsic is Deallocate & (len(arguments) + -3) == 0 & not arguments[0].0 is Ptr => Err(Ub("invalid first argument to `Deallocate` intrinsic: not a thin pointer"))
intrinsic is Deallocate & (len(arguments) + -3) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is Some => Err(Ub("invalid first argument to `Deallocate` intrinsic: not a thin pointer"))
intrinsic is Deallocate & (len(arguments) + -3) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is None & not arguments[1].0 is Int => Err(Ub("invalid second argument to `Deallocate` intrinsic: not an integer"))
intrinsic is Deallocate & (len(arguments) + -3) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is None & arguments[1].0 is Int & not arguments[1].0.Int.0 >= 0 => Err(Ub("invalid size for `Deallocate` intrinsic: negative size"))
intrinsic is Deallocate & (len(arguments) + -3) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is None & arguments[1].0 is Int & arguments[1].0.Int.0 >= 0 & not arguments[2].0 is Int => Err(Ub("invalid third argument to `Deallocate` intrinsic: not an integer"))
intrinsic is Deallocate & (len(arguments) + -3) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is None & arguments[1].0 is Int & arguments[1].0.Int.0 >= 0 & arguments[2].0 is Int & not is_power_of_two(arguments[2].0.Int.0) => Err(Ub("invalid alignment for `Deallocate` intrinsic: not a power of 2"))
intrinsic is Deallocate & (len(arguments) + -3) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is None & arguments[1].0 is Int & arguments[1].0.Int.0 >= 0 & arguments[2].0 is Int & is_power_of_two(arguments[2].0.Int.0) & not ret_ty == unit_type() => Err(Ub("invalid return type for `Deallocate` intrinsic"))
intrinsic is Deallocate & (len(arguments) + -3) == 0 & arguments[0].0 is Ptr & arguments[0].0.Ptr.0.metadata is None & arguments[1].0 is Int & arguments[1].0.Int.0 >= 0 & arguments[2].0 is Int & is_power_of_two(arguments[2].0.Int.0) & ret_ty == unit_type() => Ok(Tuple([])) ; self := self{.mem := deallocate'} ; deallocate(self.mem, arguments[0].0.Ptr.0.thin_pointer, Heap, arguments[1].0.Int.0, arguments[2].0.Int.0)?
intrinsic is Allocate & not (len(arguments) + -2) == 0 => Err(Ub("invalid number of arguments for `Allocate` intrinsic"))
intrinsic is Allocate & (len(arguments) + -2) == 0 & not arguments[0].0 is Int => Err(Ub("invalid first argument to `Allocate` intrinsic: not an integer"))
intrinsic is Allocate & (len(arguments) + -2) == 0 & arguments[0].0 is Int & not arguments[0].0.Int.0 >= 0 => Err(Ub("invalid size for `Allocate` intrinsic: negative size"))
intrinsic is Allocate & (len(arguments) + -2) == 0 & arguments[0].0 is Int & arguments[0].0.Int.0 >= 0 & not arguments[1].0 is Int => Err(Ub("invalid second argument to `Allocate` intrinsic: not an integer"))
intrinsic is Allocate & (len(arguments) + -2) == 0 & arguments[0].0 is Int & arguments[0].0.Int.0 >= 0 & arguments[1].0 is Int & not is_power_of_two(arguments[1].0.Int.0) => Err(Ub("invalid alignment for `Allocate` intrinsic: not a power of 2"))
intrinsic is Allocate & (len(arguments) + -2) == 0 & arguments[0].0 is Int & arguments[0].0.Int.0 >= 0 & arguments[1].0 is Int & is_power_of_two(arguments[1].0.Int.0) & not ret_ty is Ptr => Err(Ub("invalid return type for `Allocate` intrinsic"))
intrinsic is Allocate & (len(arguments) + -2) == 0 & arguments[0].0 is Int & arguments[0].0.Int.0 >= 0 & arguments[1].0 is Int & is_power_of_two(arguments[1].0.Int.0) & ret_ty is Ptr & meta_kind(ret_ty.Ptr.0) is Some => Err(Ub("unsized pointee requested for `Allocate` intrinsic"))
intrinsic is Allocate & (len(arguments) + -2) == 0 & arguments[0].0 is Int & arguments[0].0.Int.0 >= 0 & arguments[1].0 is Int & is_power_of_two(arguments[1].0.Int.0) & ret_ty is Ptr & meta_kind(ret_ty.Ptr.0) is None => Ok(Ptr(Pointer{thin_pointer: allocate.Ok.0, metadata: None})) ; self := self{.mem := allocate'} ; allocate(self.mem, Heap, arguments[0].0.Int.0, arguments[1].0.Int.0)?
intrinsic is PrintStderr & not ret_ty == unit_type() => Err(Ub("invalid return type for `PrintStderr` intrinsic"))
intrinsic is PrintStderr & ret_ty == unit_type() => Ok(Tuple([])) ; self := eval_print' ; eval_print(self, self.stderr, arguments)?
intrinsic is PrintStdout & not ret_ty == unit_type() => Err(Ub("invalid return type for `PrintStdout` intrinsic"))
intrinsic is PrintStdout & ret_ty == unit_type() => Ok(Tuple([])) ; self := eval_print' ; eval_print(self, self.stdout, arguments)?
intrinsic is Assume & not (len(arguments) + -1) == 0 => Err(Ub("invalid number of arguments for `Assume` intrinsic"))
intrinsic is Assume & (len(arguments) + -1) == 0 & not arguments[0].0 is Bool => Err(Ub("invalid argument for `Assume` intrinsic: not a Boolean"))
intrinsic is Assume & (len(arguments) + -1) == 0 & arguments[0].0 is Bool & not ret_ty == unit_type() => Err(Ub("invalid return type for `Assume` intrinsic"))
intrinsic is Assume & (len(arguments) + -1) == 0 & arguments[0].0 is Bool & ret_ty == unit_type() & arguments[0].0.Bool.0 => Ok(Tuple([]))
intrinsic is Assume & (len(arguments) + -1) == 0 & arguments[0].0 is Bool & ret_ty == unit_type() & not arguments[0].0.Bool.0 => Err(Ub("`Assume` intrinsic called on condition that is violated"))
intrinsic is Abort => Err(Abort)
## Machine::exit(self)
always => Err(MachineStop)
## Machine::eval_print(self, stream, arguments)
forall arguments: each(arguments).0 is Bool && write_fmt(stream, "{each(arguments).0.Bool.0}\n") is Ok || each(arguments).0 is Int && write_fmt(stream, "{each(arguments).0.Int.0}\n") is Ok => Ok(()) ; for all arguments: each(arguments).0 is Bool && write_fmt(stream, "{each(arguments).0.Bool.0}\n") is Ok || each(arguments).0 is Int && write_fmt(stream, "{each(arguments).0.Int.0}\n") is Ok
not each(arguments).0 is Int & not each(arguments).0 is Bool => Err(Ub("unsupported value for printing"))
## Machine::load_raw_data(self, ptr, ptr_ty)
not ptr_ty is Ref => Err(Ub("invalid argument to `RawEq` intrinsic: not a reference"))
ptr_ty is Ref & not ptr_ty.Ref.pointee.layout is Sized => Err(Ub("invalid argument to `RawEq` intrinsic: unsized pointee"))
ptr_ty is Ref & ptr_ty.Ref.pointee.layout is Sized & forall load.Ok.0: each(load.Ok.0) is Init => Ok([each(load.Ok.0).Init.0 for load.Ok.0]) ; self := self{.mem := load'} ; load(self.mem, ptr.thin_pointer, ptr_ty.Ref.pointee.layout.Sized.0, ptr_ty.Ref.pointee.layout.Sized.1, None)? ; for all load.Ok.0: each(load.Ok.0) is Init
ptr_ty is Ref & ptr_ty.Ref.pointee.layout is Sized & each(load.Ok.0) is Uninit => Err(Ub("invalid argument to `RawEq` intrinsic: byte is uninitialized"))
## Machine::spawn(self, func, data_pointer, data_ptr_ty)
always => Ok(new_thread.Ok.0) ; self := new_thread'{.synchronized_threads := sinsert(new_thread'.synchronized_threads, new_thread.Ok.0)} ; new_thread(self, func, [(data_pointer, data_ptr_ty)])?
## Machine::join(self, thread_id)
thread_id >= 0 & not (-1*thread_id + len(self.threads) + -1) >= 0 => Err(Ub("`Join` intrinsic: join non existing thread"))
not thread_id >= 0 => Err(Ub("`Join` intrinsic: join non existing thread"))
thread_id >= 0 & (-1*thread_id + len(self.threads) + -1) >= 0 & not self.threads[thread_id].state is Terminated => Ok(()) ; self := self{.thread := self.thread{.state := BlockedOnJoin(thread_id)}}
thread_id >= 0 & (-1*thread_id + len(self.threads) + -1) >= 0 & self.threads[thread_id].state is Terminated => Ok(())
"""


def check(c):
    n = sp.book(c, T)
    c.floor("functions", n, 6)
