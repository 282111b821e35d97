"""P19: statements and the storage of locals."""
import sp, tool

META = dict(rule="Decision table of the specification, one step at a time: for each case of one statement, the result, what it leaves in every mutable argument, and the other steps it takes, in order; on every path.")
T = r"""
## Machine::eval_statement(self, statement)
statement is StorageDead & not len(self.thread.stack) == 0 => storage_dead ; self := self{.mem := storage_dead'2}{.thread := self.thread{.top := storage_dead'1}} ; storage_dead(self.thread.top, self.mem, statement.StorageDead.0)
statement is StorageLive & not len(self.thread.stack) == 0 => storage_live ; self := self{.mem := storage_live'2}{.thread := self.thread{.top := storage_live'1}} ; storage_live(self.thread.top, self.mem, statement.StorageLive.0)
statement is Deinit & eval_place.Ok.0.0.aligned & layout(eval_place.Ok.0.1) is Sized => Ok(()) ; self := eval_place'{.mem := deinit'} ; eval_place(self, statement.Deinit.place)? ; deinit(eval_place'.mem, eval_place.Ok.0.0.ptr.thin_pointer, layout(eval_place.Ok.0.1).Sized.0, 1)?
statement is Deinit & not eval_place.Ok.0.0.aligned => Err(Ub("de-initializing a place based on a misaligned pointer"))
statement is Validate => Ok(()) ; self := place_store' ; eval_place(self, statement.Validate.place)? ; place_load(eval_place', eval_place.Ok.0.0, eval_place.Ok.0.1)? ; retag_val(place_load', place_load.Ok.0, eval_place.Ok.0.1, statement.Validate.fn_entry)? ; place_store(retag_val', eval_place.Ok.0.0, retag_val.Ok.0, eval_place.Ok.0.1)?
statement is SetDiscriminant & eval_place.Ok.0.1 is Enum & eval_place.Ok.0.0.aligned => Ok(()) ; self := after encode_discriminant((|x0, x1| {ptr_offset_inbounds(eval_place', eval_place.Ok.0.0.ptr.thin_pointer, x0) is Ok: (store(eval_place'.mem, ptr_offset_inbounds(eval_place', eval_place.Ok.0.0.ptr.thin_pointer, x0).Ok.0, x1, 1, None), now(eval_place'{.mem := after ConcurrentMemory::store(eval_place'.mem)})); !(ptr_offset_inbounds(eval_place', eval_place.Ok.0.0.ptr.thin_pointer, x0) is Ok): Err(ptr_offset_inbounds(eval_place', eval_place.Ok.0.0.ptr.thin_pointer, x0).Err.0)}), get(eval_place.Ok.0.1.Enum.variants, statement.SetDiscriminant.value).Some.0.tagger)(eval_place') ; eval_place(self, statement.SetDiscriminant.destination)? ; encode_discriminant((|x0, x1| {ptr_offset_inbounds(eval_place', eval_place.Ok.0.0.ptr.thin_pointer, x0) is Ok: (store(eval_place'.mem, ptr_offset_inbounds(eval_place', eval_place.Ok.0.0.ptr.thin_pointer, x0).Ok.0, x1, 1, None), now(eval_place'{.mem := after ConcurrentMemory::store(eval_place'.mem)})); !(ptr_offset_inbounds(eval_place', eval_place.Ok.0.0.ptr.thin_pointer, x0) is Ok): Err(ptr_offset_inbounds(eval_place', eval_place.Ok.0.0.ptr.thin_pointer, x0).Err.0)}), get(eval_place.Ok.0.1.Enum.variants, statement.SetDiscriminant.value).Some.0.tagger)?
statement is SetDiscriminant & eval_place.Ok.0.1 is Enum & not eval_place.Ok.0.0.aligned => Err(Ub("setting the discriminant of a place based on a misaligned pointer"))
statement is PlaceMention => Ok(()) ; self := eval_place' ; eval_place(self, statement.PlaceMention.0)?
statement is Assign => Ok(()) ; self := place_store' ; eval_place(self, statement.Assign.destination)? ; eval_value(eval_place', statement.Assign.source)? ; place_store(eval_value', eval_place.Ok.0.0, eval_value.Ok.0.0, eval_place.Ok.0.1)?
## StackFrame::storage_live(self, mem, local)
layout(get(storage_dead'1.func.locals, local).Some.0) is Sized => Ok(()) ; mem := allocate' ; self := storage_dead'1{.locals := minsert(storage_dead'1.locals, local, allocate.Ok.0)} ; storage_dead(self, mem, local)? ; allocate(storage_dead'2, Stack, layout(get(storage_dead'1.func.locals, local).Some.0).Sized.0, layout(get(storage_dead'1.func.locals, local).Some.0).Sized.1)?
## StackFrame::storage_dead(self, mem, local)
layout(get(self.func.locals, local).Some.0) is Sized & get(self.locals, local) is None => Ok(()) ; self := self{.locals := mremove(self.locals, local)}
layout(get(self.func.locals, local).Some.0) is Sized & get(self.locals, local) is Some => Ok(()) ; mem := deallocate' ; self := self{.locals := mremove(self.locals, local)} ; deallocate(mem, get(self.locals, local).Some.0, Stack, layout(get(self.func.locals, local).Some.0).Sized.0, layout(get(self.func.locals, local).Some.0).Sized.1)?
"""


def check(c):
    n = sp.book(c, T)
    c.floor("functions", n, 3)
