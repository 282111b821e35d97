"""P24: well-formedness of statements, terminators, functions and programs."""
import sp, tool

META = dict(rule="Decision table of the specification, one step at a time: for each case of one part of a program, the result, what it leaves in every mutable argument, and the other steps it takes, in order; on every path.")
T = r"""
## Statement::check_wf(self, func, prog)
self is StorageDead & get(func.locals, self.StorageDead.0) is None => Err(IllFormed("Statement::StorageDead: invalid local variable"))
self is StorageDead & get(func.locals, self.StorageDead.0) is Some & func.ret == self.StorageDead.0 => Err(IllFormed("Statement::StorageDead: trying to mark argument or return local as dead"))
self is StorageDead & get(func.locals, self.StorageDead.0) is Some & not func.ret == self.StorageDead.0 & forall func.args: !(each(func.args) == self.StorageDead.0) => Ok(()) ; for all func.args: !(each(func.args) == self.StorageDead.0)
self is StorageDead & get(func.locals, self.StorageDead.0) is Some & not func.ret == self.StorageDead.0 & each(func.args) == self.StorageDead.0 => Err(IllFormed("Statement::StorageDead: trying to mark argument or return local as dead"))
self is StorageLive & get(func.locals, self.StorageLive.0) is None => Err(IllFormed("Statement::StorageLive: invalid local variable"))
self is StorageLive & get(func.locals, self.StorageLive.0) is Some => Ok(())
self is Deinit & layout(check_wf(self.Deinit.place, func.locals, prog).Ok.0) is Sized => Ok(()) ; check_wf(self.Deinit.place, func.locals, prog)?
self is Deinit & not layout(check_wf(self.Deinit.place, func.locals, prog).Ok.0) is Sized => Err(IllFormed("Statement::Deinit: unsized place"))
self is Validate & layout(check_wf(self.Validate.place, func.locals, prog).Ok.0) is Sized => Ok(()) ; check_wf(self.Validate.place, func.locals, prog)?
self is Validate & not layout(check_wf(self.Validate.place, func.locals, prog).Ok.0) is Sized => Err(IllFormed("Statement::Validate: unsized place"))
self is SetDiscriminant & not check_wf(self.SetDiscriminant.destination, func.locals, prog).Ok.0 is Enum => Err(IllFormed("Statement::SetDiscriminant: invalid type"))
self is SetDiscriminant & check_wf(self.SetDiscriminant.destination, func.locals, prog).Ok.0 is Enum & get(check_wf(self.SetDiscriminant.destination, func.locals, prog).Ok.0.Enum.variants, self.SetDiscriminant.value) is None => Err(IllFormed("Statement::SetDiscriminant: invalid discriminant write"))
self is SetDiscriminant & check_wf(self.SetDiscriminant.destination, func.locals, prog).Ok.0 is Enum & get(check_wf(self.SetDiscriminant.destination, func.locals, prog).Ok.0.Enum.variants, self.SetDiscriminant.value) is Some => Ok(()) ; check_wf(self.SetDiscriminant.destination, func.locals, prog)?
self is PlaceMention => Ok(()) ; check_wf(self.PlaceMention.0, func.locals, prog)?
self is Assign & not check_wf(self.Assign.destination, func.locals, prog).Ok.0 == check_wf(self.Assign.source, func.locals, prog).Ok.0 => Err(IllFormed("Statement::Assign: destination and source type differ"))
self is Assign & check_wf(self.Assign.destination, func.locals, prog).Ok.0 == check_wf(self.Assign.source, func.locals, prog).Ok.0 & layout(check_wf(self.Assign.source, func.locals, prog).Ok.0) is Sized => Ok(()) ; check_wf(self.Assign.destination, func.locals, prog)? ; check_wf(self.Assign.source, func.locals, prog)?
## Terminator::check_wf(self, block_kind, func, prog)
self is ResumeUnwind & not block_kind is Cleanup => Err(IllFormed("Terminator::ResumeUnwind: has to be called in cleanup block"))
self is ResumeUnwind & block_kind is Cleanup => Ok(())
self is StopUnwind & not block_kind is Catch => Err(IllFormed("Terminator::StopUnwind has to be called in a catch block"))
self is StopUnwind & block_kind is Catch => Ok(()) ; check_next_block(func, Regular, self.StopUnwind.0)?
self is StartUnwind & not check_wf(self.StartUnwind.unwind_payload, func.locals, prog).Ok.0 is Ptr => Err(IllFormed("Terminator::StartUnwind: the unwind payload should be a raw pointer"))
self is StartUnwind & check_wf(self.StartUnwind.unwind_payload, func.locals, prog).Ok.0 is Ptr & not check_wf(self.StartUnwind.unwind_payload, func.locals, prog).Ok.0.Ptr.0 is Raw => Err(IllFormed("Terminator::StartUnwind: the unwind payload should be a raw pointer"))
self is StartUnwind & check_wf(self.StartUnwind.unwind_payload, func.locals, prog).Ok.0 is Ptr & check_wf(self.StartUnwind.unwind_payload, func.locals, prog).Ok.0.Ptr.0 is Raw & check_wf(self.StartUnwind.unwind_payload, func.locals, prog).Ok.0.Ptr.0.Raw.meta_kind is Some => Err(IllFormed("Terminator::StartUnwind: the unwind payload should be a raw pointer"))
self is StartUnwind & check_wf(self.StartUnwind.unwind_payload, func.locals, prog).Ok.0 is Ptr & check_wf(self.StartUnwind.unwind_payload, func.locals, prog).Ok.0.Ptr.0 is Raw & check_wf(self.StartUnwind.unwind_payload, func.locals, prog).Ok.0.Ptr.0.Raw.meta_kind is None & not block_kind is Regular => Err(IllFormed("Terminator::StartUnwind has to be called in a regular block"))
self is StartUnwind & check_wf(self.StartUnwind.unwind_payload, func.locals, prog).Ok.0 is Ptr & check_wf(self.StartUnwind.unwind_payload, func.locals, prog).Ok.0.Ptr.0 is Raw & check_wf(self.StartUnwind.unwind_payload, func.locals, prog).Ok.0.Ptr.0.Raw.meta_kind is None & block_kind is Regular => Ok(()) ; check_wf(self.StartUnwind.unwind_payload, func.locals, prog)? ; check_unwind_block(func, block_kind, self.StartUnwind.unwind_block)?
self is Return & not block_kind is Regular => Err(IllFormed("Terminator::Return has to be called in a regular block"))
self is Return & block_kind is Regular => Ok(())
self is Call & not check_wf(self.Call.callee, func.locals, prog).Ok.0 is Ptr => Err(IllFormed("Terminator::Call: invalid type"))
self is Call & check_wf(self.Call.callee, func.locals, prog).Ok.0 is Ptr & not check_wf(self.Call.callee, func.locals, prog).Ok.0.Ptr.0 is FnPtr => Err(IllFormed("Terminator::Call: invalid type"))
self is Call & check_wf(self.Call.callee, func.locals, prog).Ok.0 is Ptr & check_wf(self.Call.callee, func.locals, prog).Ok.0.Ptr.0 is FnPtr & layout(check_wf(self.Call.ret, func.locals, prog).Ok.0) is Sized & self.Call.next_block is None & self.Call.unwind_block is None & forall self.Call.arguments: check_wf(each(self.Call.arguments), func.locals, prog) is Ok && layout(check_wf(each(self.Call.arguments), func.locals, prog).Ok.0) is Sized => Ok(()) ; check_wf(self.Call.callee, func.locals, prog)? ; check_wf(self.Call.ret, func.locals, prog)? ; for all self.Call.arguments: check_wf(each(self.Call.arguments), func.locals, prog) is Ok && layout(check_wf(each(self.Call.arguments), func.locals, prog).Ok.0) is Sized
self is Call & check_wf(self.Call.callee, func.locals, prog).Ok.0 is Ptr & check_wf(self.Call.callee, func.locals, prog).Ok.0.Ptr.0 is FnPtr & layout(check_wf(self.Call.ret, func.locals, prog).Ok.0) is Sized & self.Call.next_block is None & self.Call.unwind_block is Some & forall self.Call.arguments: check_wf(each(self.Call.arguments), func.locals, prog) is Ok && layout(check_wf(each(self.Call.arguments), func.locals, prog).Ok.0) is Sized => Ok(()) ; check_wf(self.Call.callee, func.locals, prog)? ; check_wf(self.Call.ret, func.locals, prog)? ; check_unwind_block(func, block_kind, self.Call.unwind_block.Some.0)? ; for all self.Call.arguments: check_wf(each(self.Call.arguments), func.locals, prog) is Ok && layout(check_wf(each(self.Call.arguments), func.locals, prog).Ok.0) is Sized
self is Call & check_wf(self.Call.callee, func.locals, prog).Ok.0 is Ptr & check_wf(self.Call.callee, func.locals, prog).Ok.0.Ptr.0 is FnPtr & layout(check_wf(self.Call.ret, func.locals, prog).Ok.0) is Sized & self.Call.next_block is Some & self.Call.unwind_block is None & forall self.Call.arguments: check_wf(each(self.Call.arguments), func.locals, prog) is Ok && layout(check_wf(each(self.Call.arguments), func.locals, prog).Ok.0) is Sized => Ok(()) ; check_wf(self.Call.callee, func.locals, prog)? ; check_wf(self.Call.ret, func.locals, prog)? ; check_next_block(func, block_kind, self.Call.next_block.Some.0)? ; for all self.Call.arguments: check_wf(each(self.Call.arguments), func.locals, prog) is Ok && layout(check_wf(each(self.Call.arguments), func.locals, prog).Ok.0) is Sized
self is Call & check_wf(self.Call.callee, func.locals, prog).Ok.0 is Ptr & check_wf(self.Call.callee, func.locals, prog).Ok.0.Ptr.0 is FnPtr & layout(check_wf(self.Call.ret, func.locals, prog).Ok.0) is Sized & self.Call.next_block is Some & self.Call.unwind_block is Some & forall self.Call.arguments: check_wf(each(self.Call.arguments), func.locals, prog) is Ok && layout(check_wf(each(self.Call.arguments), func.locals, prog).Ok.0) is Sized => Ok(()) ; check_wf(self.Call.callee, func.locals, prog)? ; check_wf(self.Call.ret, func.locals, prog)? ; check_next_block(func, block_kind, self.Call.next_block.Some.0)? ; check_unwind_block(func, block_kind, self.Call.unwind_block.Some.0)? ; for all self.Call.arguments: check_wf(each(self.Call.arguments), func.locals, prog) is Ok && layout(check_wf(each(self.Call.arguments), func.locals, prog).Ok.0) is Sized
self is Call & check_wf(self.Call.callee, func.locals, prog).Ok.0 is Ptr & check_wf(self.Call.callee, func.locals, prog).Ok.0.Ptr.0 is FnPtr & layout(check_wf(self.Call.ret, func.locals, prog).Ok.0) is Sized & not layout(check_wf(each(self.Call.arguments), func.locals, prog).Ok.0) is Sized => Err(IllFormed("Terminator::Call: unsized argument type"))
self is Call & check_wf(self.Call.callee, func.locals, prog).Ok.0 is Ptr & check_wf(self.Call.callee, func.locals, prog).Ok.0.Ptr.0 is FnPtr & not layout(check_wf(self.Call.ret, func.locals, prog).Ok.0) is Sized => Err(IllFormed("Terminator::Call: unsized return type"))
self is Intrinsic & layout(check_wf(self.Intrinsic.ret, func.locals, prog).Ok.0) is Sized & not self.Intrinsic.intrinsic is AtomicFetchAndOp & self.Intrinsic.next_block is None & forall self.Intrinsic.arguments: check_wf(each(self.Intrinsic.arguments), func.locals, prog) is Ok && layout(check_wf(each(self.Intrinsic.arguments), func.locals, prog).Ok.0) is Sized => Ok(()) ; check_wf(self.Intrinsic.ret, func.locals, prog)? ; for all self.Intrinsic.arguments: check_wf(each(self.Intrinsic.arguments), func.locals, prog) is Ok && layout(check_wf(each(self.Intrinsic.arguments), func.locals, prog).Ok.0) is Sized
self is Intrinsic & layout(check_wf(self.Intrinsic.ret, func.locals, prog).Ok.0) is Sized & not self.Intrinsic.intrinsic is AtomicFetchAndOp & self.Intrinsic.next_block is Some & forall self.Intrinsic.arguments: check_wf(each(self.Intrinsic.arguments), func.locals, prog) is Ok && layout(check_wf(each(self.Intrinsic.arguments), func.locals, prog).Ok.0) is Sized => Ok(()) ; check_wf(self.Intrinsic.ret, func.locals, prog)? ; check_next_block(func, block_kind, self.Intrinsic.next_block.Some.0)? ; for all self.Intrinsic.arguments: check_wf(each(self.Intrinsic.arguments), func.locals, prog) is Ok && layout(check_wf(each(self.Intrinsic.arguments), func.locals, prog).Ok.0) is Sized
self is Intrinsic & layout(check_wf(self.Intrinsic.ret, func.locals, prog).Ok.0) is Sized & self.Intrinsic.intrinsic is AtomicFetchAndOp & self.Intrinsic.intrinsic.AtomicFetchAndOp.0 is Add & self.Intrinsic.next_block is None & forall self.Intrinsic.arguments: check_wf(each(self.Intrinsic.arguments), func.locals, prog) is Ok && layout(check_wf(each(self.Intrinsic.arguments), func.locals, prog).Ok.0) is Sized => Ok(()) ; check_wf(self.Intrinsic.ret, func.locals, prog)? ; for all self.Intrinsic.arguments: check_wf(each(self.Intrinsic.arguments), func.locals, prog) is Ok && layout(check_wf(each(self.Intrinsic.arguments), func.locals, prog).Ok.0) is Sized
self is Intrinsic & layout(check_wf(self.Intrinsic.ret, func.locals, prog).Ok.0) is Sized & self.Intrinsic.intrinsic is AtomicFetchAndOp & self.Intrinsic.intrinsic.AtomicFetchAndOp.0 is Add & self.Intrinsic.next_block is Some & forall self.Intrinsic.arguments: check_wf(each(self.Intrinsic.arguments), func.locals, prog) is Ok && layout(check_wf(each(self.Intrinsic.arguments), func.locals, prog).Ok.0) is Sized => Ok(()) ; check_wf(self.Intrinsic.ret, func.locals, prog)? ; check_next_block(func, block_kind, self.Intrinsic.next_block.Some.0)? ; for all self.Intrinsic.arguments: check_wf(each(self.Intrinsic.arguments), func.locals, prog) is Ok && layout(check_wf(each(self.Intrinsic.arguments), func.locals, prog).Ok.0) is Sized
self is Intrinsic & layout(check_wf(self.Intrinsic.ret, func.locals, prog).Ok.0) is Sized & self.Intrinsic.intrinsic is AtomicFetchAndOp & self.Intrinsic.intrinsic.AtomicFetchAndOp.0 is Sub & self.Intrinsic.next_block is None & forall self.Intrinsic.arguments: check_wf(each(self.Intrinsic.arguments), func.locals, prog) is Ok && layout(check_wf(each(self.Intrinsic.arguments), func.locals, prog).Ok.0) is Sized => Ok(()) ; check_wf(self.Intrinsic.ret, func.locals, prog)? ; for all self.Intrinsic.arguments: check_wf(each(self.Intrinsic.arguments), func.locals, prog) is Ok && layout(check_wf(each(self.Intrinsic.arguments), func.locals, prog).Ok.0) is Sized
self is Intrinsic & layout(check_wf(self.Intrinsic.ret, func.locals, prog).Ok.0) is Sized & self.Intrinsic.intrinsic is AtomicFetchAndOp & self.Intrinsic.intrinsic.AtomicFetchAndOp.0 is Sub & self.Intrinsic.next_block is Some & forall self.Intrinsic.arguments: check_wf(each(self.Intrinsic.arguments), func.locals, prog) is Ok && layout(check_wf(each(self.Intrinsic.arguments), func.locals, prog).Ok.0) is Sized => Ok(()) ; check_wf(self.Intrinsic.ret, func.locals, prog)? ; check_next_block(func, block_kind, self.Intrinsic.next_block.Some.0)? ; for all self.Intrinsic.arguments: check_wf(each(self.Intrinsic.arguments), func.locals, prog) is Ok && layout(check_wf(each(self.Intrinsic.arguments), func.locals, prog).Ok.0) is Sized
self is Intrinsic & layout(check_wf(self.Intrinsic.ret, func.locals, prog).Ok.0) is Sized & self.Intrinsic.intrinsic is AtomicFetchAndOp & not self.Intrinsic.intrinsic.AtomicFetchAndOp.0 is Add & not self.Intrinsic.intrinsic.AtomicFetchAndOp.0 is Sub & forall self.Intrinsic.arguments: check_wf(each(self.Intrinsic.arguments), func.locals, prog) is Ok && layout(check_wf(each(self.Intrinsic.arguments), func.locals, prog).Ok.0) is Sized => Err(IllFormed("IntrinsicOp::AtomicFetchAndOp: non atomic op"))
self is Intrinsic & layout(check_wf(self.Intrinsic.ret, func.locals, prog).Ok.0) is Sized & not layout(check_wf(each(self.Intrinsic.arguments), func.locals, prog).Ok.0) is Sized => Err(IllFormed("Terminator::Intrinsic: unsized argument type"))
self is Intrinsic & not layout(check_wf(self.Intrinsic.ret, func.locals, prog).Ok.0) is Sized => Err(IllFormed("Terminator::Intrinsic: unsized return type"))
self is Unreachable => Ok(())
self is Switch & not check_wf(self.Switch.value, func.locals, prog).Ok.0 is Int => Err(IllFormed("Terminator::Switch: switch is not Int"))
self is Switch & check_wf(self.Switch.value, func.locals, prog).Ok.0 is Int & forall self.Switch.cases: can_represent(check_wf(self.Switch.value, func.locals, prog).Ok.0.Int.0, each(self.Switch.cases).0) && check_next_block(func, block_kind, each(self.Switch.cases).1) is Ok => Ok(()) ; check_wf(self.Switch.value, func.locals, prog)? ; check_next_block(func, block_kind, self.Switch.fallback)? ; for all self.Switch.cases: can_represent(check_wf(self.Switch.value, func.locals, prog).Ok.0.Int.0, each(self.Switch.cases).0) && check_next_block(func, block_kind, each(self.Switch.cases).1) is Ok
self is Switch & check_wf(self.Switch.value, func.locals, prog).Ok.0 is Int & not can_represent(check_wf(self.Switch.value, func.locals, prog).Ok.0.Int.0, each(self.Switch.cases).0) => Err(IllFormed("Terminator::Switch: value does not fit in switch type"))
self is Goto => Ok(()) ; check_next_block(func, block_kind, self.Goto.0)?
## Function::check_wf(self, prog)
get(self.locals, self.ret) is None & forall self.locals: check_wf(each(self.locals).1, prog) is Ok && layout(each(self.locals).1) is Sized & forall self.args: !(contains(~[], each(self.args))) && get(self.locals, each(self.args)) is Some => Err(IllFormed("Function: return local does not exist"))
get(self.locals, self.ret) is Some & not contains(self.args, self.ret) & forall self.locals: check_wf(each(self.locals).1, prog) is Ok && layout(each(self.locals).1) is Sized & forall self.args: !(contains(~[], each(self.args))) && get(self.locals, each(self.args)) is Some & forall self.blocks: [forall each(self.blocks).1.statements: check_wf(each(each(self.blocks).1.statements), self, prog) is Ok] && check_wf(each(self.blocks).1.terminator, each(self.blocks).1.kind, self, prog) is Ok => Ok(()) ; for all self.locals: check_wf(each(self.locals).1, prog) is Ok && layout(each(self.locals).1) is Sized ; for all self.args: !(contains(~[], each(self.args))) && get(self.locals, each(self.args)) is Some ; for all self.blocks: [forall each(self.blocks).1.statements: check_wf(each(each(self.blocks).1.statements), self, prog) is Ok] && check_wf(each(self.blocks).1.terminator, each(self.blocks).1.kind, self, prog) is Ok
get(self.locals, self.ret) is Some & contains(self.args, self.ret) & forall self.locals: check_wf(each(self.locals).1, prog) is Ok && layout(each(self.locals).1) is Sized & forall self.args: !(contains(~[], each(self.args))) && get(self.locals, each(self.args)) is Some => Err(IllFormed("Function: return local is also used for an argument"))
get(self.locals, each(self.args)) is Some & contains(~[], each(self.args)) & forall self.locals: check_wf(each(self.locals).1, prog) is Ok && layout(each(self.locals).1) is Sized => Err(IllFormed("Function: two arguments refer to the same local"))
get(self.locals, each(self.args)) is None & forall self.locals: check_wf(each(self.locals).1, prog) is Ok && layout(each(self.locals).1) is Sized => Err(IllFormed("Function: argument local does not exist"))
not layout(each(self.locals).1) is Sized => Err(IllFormed("Function: unsized local variable"))
## Function::check_next_block(self, expected_block_kind, next_block_name)
get(self.blocks, next_block_name) is None => Err(IllFormed("Terminator: next block does not exist"))
get(self.blocks, next_block_name) is Some & not expected_block_kind == get(self.blocks, next_block_name).Some.0.kind => Err(IllFormed("Terminator: next block has the wrong block kind"))
get(self.blocks, next_block_name) is Some & expected_block_kind == get(self.blocks, next_block_name).Some.0.kind => Ok(())
## Function::check_unwind_block(self, current_block_kind, unwind_block_name)
current_block_kind is Terminate & get(self.blocks, unwind_block_name) is None => Err(IllFormed("Terminator: unwind block does not exist"))
current_block_kind is Terminate & get(self.blocks, unwind_block_name) is Some & not get(self.blocks, unwind_block_name).Some.0.kind is Terminate => Err(IllFormed("Terminator: unwind block has the wrong block kind"))
current_block_kind is Terminate & get(self.blocks, unwind_block_name) is Some & get(self.blocks, unwind_block_name).Some.0.kind is Terminate => Ok(())
current_block_kind is Catch => Err(IllFormed("Terminator: unwinding is not allowed in a catch block"))
current_block_kind is Cleanup & get(self.blocks, unwind_block_name) is None => Err(IllFormed("Terminator: unwind block does not exist"))
current_block_kind is Cleanup & get(self.blocks, unwind_block_name) is Some & not get(self.blocks, unwind_block_name).Some.0.kind is Terminate => Err(IllFormed("Terminator: unwind block has the wrong block kind"))
current_block_kind is Cleanup & get(self.blocks, unwind_block_name) is Some & get(self.blocks, unwind_block_name).Some.0.kind is Terminate => Ok(())
current_block_kind is Regular & get(self.blocks, unwind_block_name) is None => Err(IllFormed("Terminator: unwind block does not exist"))
current_block_kind is Regular & get(self.blocks, unwind_block_name) is Some & not get(self.blocks, unwind_block_name).Some.0.kind is Cleanup & not get(self.blocks, unwind_block_name).Some.0.kind is Catch => Err(IllFormed("Terminator: unwind block has the wrong block kind"))
current_block_kind is Regular & get(self.blocks, unwind_block_name) is Some & get(self.blocks, unwind_block_name).Some.0.kind is Catch => Ok(())
current_block_kind is Regular & get(self.blocks, unwind_block_name) is Some & get(self.blocks, unwind_block_name).Some.0.kind is Cleanup => Ok(())
## Program::check_wf(self)
get(self.functions, self.start) is None & forall self.vtables: check_cells(each(self.vtables).1.cells, each(self.vtables).1.size) is Ok && get(self.traits, each(self.vtables).1.trait_name) is Some && get(self.traits, each(self.vtables).1.trait_name).Some.0 == mapproj(each(self.vtables).1.methods, 0) && rem(each(self.vtables).1.size, each(self.vtables).1.align) == 0 & forall self.functions: check_wf(each(self.functions).1, self) is Ok => Err(IllFormed("Program: start function does not exist"))
get(self.functions, self.start) is Some & not get(self.functions, self.start).Some.0.calling_convention is C & forall self.vtables: check_cells(each(self.vtables).1.cells, each(self.vtables).1.size) is Ok && get(self.traits, each(self.vtables).1.trait_name) is Some && get(self.traits, each(self.vtables).1.trait_name).Some.0 == mapproj(each(self.vtables).1.methods, 0) && rem(each(self.vtables).1.size, each(self.vtables).1.align) == 0 & forall self.functions: check_wf(each(self.functions).1, self) is Ok => Err(IllFormed("Program: start function has invalid calling convention"))
get(self.functions, self.start) is Some & get(self.functions, self.start).Some.0.calling_convention is C & not layout(get(get(self.functions, self.start).Some.0.locals, get(self.functions, self.start).Some.0.ret).Some.0) is Sized & forall self.vtables: check_cells(each(self.vtables).1.cells, each(self.vtables).1.size) is Ok && get(self.traits, each(self.vtables).1.trait_name) is Some && get(self.traits, each(self.vtables).1.trait_name).Some.0 == mapproj(each(self.vtables).1.methods, 0) && rem(each(self.vtables).1.size, each(self.vtables).1.align) == 0 & forall self.functions: check_wf(each(self.functions).1, self) is Ok => Err(IllFormed("Program: start function return local has invalid layout"))
get(self.functions, self.start) is Some & get(self.functions, self.start).Some.0.calling_convention is C & layout(get(get(self.functions, self.start).Some.0.locals, get(self.functions, self.start).Some.0.ret).Some.0) is Sized & not layout(get(get(self.functions, self.start).Some.0.locals, get(self.functions, self.start).Some.0.ret).Some.0).Sized.0 == 0 & forall self.vtables: check_cells(each(self.vtables).1.cells, each(self.vtables).1.size) is Ok && get(self.traits, each(self.vtables).1.trait_name) is Some && get(self.traits, each(self.vtables).1.trait_name).Some.0 == mapproj(each(self.vtables).1.methods, 0) && rem(each(self.vtables).1.size, each(self.vtables).1.align) == 0 & forall self.functions: check_wf(each(self.functions).1, self) is Ok => Err(IllFormed("Program: start function return local has invalid layout"))
get(self.functions, self.start) is Some & get(self.functions, self.start).Some.0.calling_convention is C & layout(get(get(self.functions, self.start).Some.0.locals, get(self.functions, self.start).Some.0.ret).Some.0) is Sized & layout(get(get(self.functions, self.start).Some.0.locals, get(self.functions, self.start).Some.0.ret).Some.0).Sized.0 == 0 & not (layout(get(get(self.functions, self.start).Some.0.locals, get(self.functions, self.start).Some.0.ret).Some.0).Sized.1 + -1) == 0 & forall self.vtables: check_cells(each(self.vtables).1.cells, each(self.vtables).1.size) is Ok && get(self.traits, each(self.vtables).1.trait_name) is Some && get(self.traits, each(self.vtables).1.trait_name).Some.0 == mapproj(each(self.vtables).1.methods, 0) && rem(each(self.vtables).1.size, each(self.vtables).1.align) == 0 & forall self.functions: check_wf(each(self.functions).1, self) is Ok => Err(IllFormed("Program: start function return local has invalid layout"))
get(self.functions, self.start) is Some & get(self.functions, self.start).Some.0.calling_convention is C & layout(get(get(self.functions, self.start).Some.0.locals, get(self.functions, self.start).Some.0.ret).Some.0) is Sized & layout(get(get(self.functions, self.start).Some.0.locals, get(self.functions, self.start).Some.0.ret).Some.0).Sized.0 == 0 & (layout(get(get(self.functions, self.start).Some.0.locals, get(self.functions, self.start).Some.0.ret).Some.0).Sized.1 + -1) == 0 & not len(get(self.functions, self.start).Some.0.args) == 0 & forall self.vtables: check_cells(each(self.vtables).1.cells, each(self.vtables).1.size) is Ok && get(self.traits, each(self.vtables).1.trait_name) is Some && get(self.traits, each(self.vtables).1.trait_name).Some.0 == mapproj(each(self.vtables).1.methods, 0) && rem(each(self.vtables).1.size, each(self.vtables).1.align) == 0 & forall self.functions: check_wf(each(self.functions).1, self) is Ok => Err(IllFormed("Program: start function has arguments"))
get(self.functions, self.start) is Some & get(self.functions, self.start).Some.0.calling_convention is C & layout(get(get(self.functions, self.start).Some.0.locals, get(self.functions, self.start).Some.0.ret).Some.0) is Sized & layout(get(get(self.functions, self.start).Some.0.locals, get(self.functions, self.start).Some.0.ret).Some.0).Sized.0 == 0 & (layout(get(get(self.functions, self.start).Some.0.locals, get(self.functions, self.start).Some.0.ret).Some.0).Sized.1 + -1) == 0 & len(get(self.functions, self.start).Some.0.args) == 0 & forall self.vtables: check_cells(each(self.vtables).1.cells, each(self.vtables).1.size) is Ok && get(self.traits, each(self.vtables).1.trait_name) is Some && get(self.traits, each(self.vtables).1.trait_name).Some.0 == mapproj(each(self.vtables).1.methods, 0) && rem(each(self.vtables).1.size, each(self.vtables).1.align) == 0 & forall self.functions: check_wf(each(self.functions).1, self) is Ok & forall self.globals: [forall each(self.globals).1.relocations: !(!((-1*Target::PTR_SIZE + -1*each(each(self.globals).1.relocations).0 + len(each(self.globals).1.bytes)) >= 0)) && check_wf(each(each(self.globals).1.relocations).1, self.globals) is Ok] => Ok(()) ; for all self.vtables: check_cells(each(self.vtables).1.cells, each(self.vtables).1.size) is Ok && get(self.traits, each(self.vtables).1.trait_name) is Some && get(self.traits, each(self.vtables).1.trait_name).Some.0 == mapproj(each(self.vtables).1.methods, 0) && rem(each(self.vtables).1.size, each(self.vtables).1.align) == 0 ; for all self.functions: check_wf(each(self.functions).1, self) is Ok ; for all self.globals: [forall each(self.globals).1.relocations: !(!((-1*Target::PTR_SIZE + -1*each(each(self.globals).1.relocations).0 + len(each(self.globals).1.bytes)) >= 0)) && check_wf(each(each(self.globals).1.relocations).1, self.globals) is Ok]
get(self.functions, self.start) is Some & get(self.functions, self.start).Some.0.calling_convention is C & layout(get(get(self.functions, self.start).Some.0.locals, get(self.functions, self.start).Some.0.ret).Some.0) is Sized & layout(get(get(self.functions, self.start).Some.0.locals, get(self.functions, self.start).Some.0.ret).Some.0).Sized.0 == 0 & (layout(get(get(self.functions, self.start).Some.0.locals, get(self.functions, self.start).Some.0.ret).Some.0).Sized.1 + -1) == 0 & len(get(self.functions, self.start).Some.0.args) == 0 & not (-1*Target::PTR_SIZE + -1*each(each(self.globals).1.relocations).0 + len(each(self.globals).1.bytes)) >= 0 & forall self.vtables: check_cells(each(self.vtables).1.cells, each(self.vtables).1.size) is Ok && get(self.traits, each(self.vtables).1.trait_name) is Some && get(self.traits, each(self.vtables).1.trait_name).Some.0 == mapproj(each(self.vtables).1.methods, 0) && rem(each(self.vtables).1.size, each(self.vtables).1.align) == 0 & forall self.functions: check_wf(each(self.functions).1, self) is Ok => Err(IllFormed("Program: invalid global pointer value"))
rem(each(self.vtables).1.size, each(self.vtables).1.align) == 0 & get(self.traits, each(self.vtables).1.trait_name) is Some & not get(self.traits, each(self.vtables).1.trait_name).Some.0 == mapproj(each(self.vtables).1.methods, 0) => Err(IllFormed("Program: vtable has not the right set of methods"))
rem(each(self.vtables).1.size, each(self.vtables).1.align) == 0 & get(self.traits, each(self.vtables).1.trait_name) is None => Err(IllFormed("Program: vtable for unknown trait"))
not rem(each(self.vtables).1.size, each(self.vtables).1.align) == 0 => Err(IllFormed("Program: size stored in vtable not a multiple of alignment"))
"""


def check(c):
    n = sp.book(c, T)
    c.floor("functions", n, 6)
