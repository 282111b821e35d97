"""P20: terminators and steps."""
import sp, tool

META = dict(rule="Decision table of the specification, one step at a time: for each case of one terminator or step, the result, what it leaves in every mutable argument, and the other steps it takes, in order; on every path.")
T = r"""
## Machine::eval_terminator(self, terminator)
terminator is ResumeUnwind & not len(self.thread.stack) == 0 & loop#2.stack_pop_action is BackToCaller & loop#2.stack_pop_action.BackToCaller.unwind_block is None => Err(Ub("unwinding from a function where the caller did not specify an unwind_block"))
terminator is ResumeUnwind & not len(self.thread.stack) == 0 & loop#2.stack_pop_action is BackToCaller & loop#2.stack_pop_action.BackToCaller.unwind_block is Some => Ok(()) ; self := jump_to_block' ; loop = fold(mapproj(~self.thread.top.locals, 0), (self.mem), each(~self.thread.top.locals).0, (after StackFrame::storage_dead(acc0))) ; loop#2 = fold(mapproj(~self.thread.top.locals, 0), (self.thread.top), each(~self.thread.top.locals).0, (after StackFrame::storage_dead(acc0))) ; end_call(loop, loop#2.extra)? ; jump_to_block(self{.mem := end_call'}{.thread := self.thread{.stack := pop(self.thread.stack)}}, loop#2.stack_pop_action.BackToCaller.unwind_block.Some.0)? ; for all ~self.thread.top.locals: storage_dead(~self.thread.top, ~self.mem, each(~self.thread.top.locals).0) is Ok
terminator is ResumeUnwind & not len(self.thread.stack) == 0 & loop#2.stack_pop_action is BottomOfStack => Err(Ub("the function at the bottom of the stack must not unwind"))
terminator is StopUnwind & len(self.thread.unwind_payloads) == 0 => Err(Ub("StopUnwind: the payload stack is empty"))
terminator is StopUnwind & not len(self.thread.unwind_payloads) == 0 => Ok(()) ; self := jump_to_block' ; jump_to_block(self{.thread := self.thread{.unwind_payloads := pop(self.thread.unwind_payloads)}}, terminator.StopUnwind.0)?
terminator is StartUnwind & eval_value.Ok.0.0 is Ptr & eval_value.Ok.0.1 is Ptr & eval_value.Ok.0.1.Ptr.0 is Raw & eval_value.Ok.0.1.Ptr.0.Raw.meta_kind is None => Ok(()) ; self := jump_to_block' ; eval_value(self, terminator.StartUnwind.unwind_payload)? ; jump_to_block(eval_value'{.thread := eval_value'.thread{.unwind_payloads := push(eval_value'.thread.unwind_payloads, eval_value.Ok.0.0.Ptr.0.thin_pointer)}}, terminator.StartUnwind.unwind_block)?
terminator is Return & not len(self.thread.stack) == 0 & layout(get(self.thread.top.func.locals, self.thread.top.func.ret).Some.0) is Sized & loop#2.stack_pop_action is BackToCaller & (len(typed_load'.thread.stack) + -1) >= 0 & loop#2.stack_pop_action.BackToCaller.next_block is None => Err(Ub("return from a function where caller did not specify next block"))
terminator is Return & not len(self.thread.stack) == 0 & layout(get(self.thread.top.func.locals, self.thread.top.func.ret).Some.0) is Sized & loop#2.stack_pop_action is BackToCaller & (len(typed_load'.thread.stack) + -1) >= 0 & loop#2.stack_pop_action.BackToCaller.next_block is Some => Ok(()) ; self := jump_to_block' ; typed_load(self{.thread := self.thread{.stack := pop(self.thread.stack)}}, get(self.thread.top.locals, self.thread.top.func.ret).Some.0, get(self.thread.top.func.locals, self.thread.top.func.ret).Some.0, layout(get(self.thread.top.func.locals, self.thread.top.func.ret).Some.0).Sized.1, None)? ; loop = fold(mapproj(~self.thread.top.locals, 0), (typed_load'.mem), each(~self.thread.top.locals).0, (after StackFrame::storage_dead(acc0))) ; loop#2 = fold(mapproj(~self.thread.top.locals, 0), (self.thread.top), each(~self.thread.top.locals).0, (after StackFrame::storage_dead(acc0))) ; end_call(loop, loop#2.extra)? ; typed_store(typed_load'{.mem := end_call'}, loop#2.stack_pop_action.BackToCaller.ret_val_ptr, typed_load.Ok.0, get(self.thread.top.func.locals, self.thread.top.func.ret).Some.0, layout(get(self.thread.top.func.locals, self.thread.top.func.ret).Some.0).Sized.1, None)? ; jump_to_block(typed_store', loop#2.stack_pop_action.BackToCaller.next_block.Some.0)? ; for all ~self.thread.top.locals: storage_dead(~self.thread.top, ~typed_load'.mem, each(~self.thread.top.locals).0) is Ok
terminator is Return & not len(self.thread.stack) == 0 & layout(get(self.thread.top.func.locals, self.thread.top.func.ret).Some.0) is Sized & loop#2.stack_pop_action is BottomOfStack => Ok(()) ; self := terminate_active_thread' ; typed_load(self{.thread := self.thread{.stack := pop(self.thread.stack)}}, get(self.thread.top.locals, self.thread.top.func.ret).Some.0, get(self.thread.top.func.locals, self.thread.top.func.ret).Some.0, layout(get(self.thread.top.func.locals, self.thread.top.func.ret).Some.0).Sized.1, None)? ; loop = fold(mapproj(~self.thread.top.locals, 0), (typed_load'.mem), each(~self.thread.top.locals).0, (after StackFrame::storage_dead(acc0))) ; loop#2 = fold(mapproj(~self.thread.top.locals, 0), (self.thread.top), each(~self.thread.top.locals).0, (after StackFrame::storage_dead(acc0))) ; end_call(loop, loop#2.extra)? ; terminate_active_thread(typed_load'{.mem := end_call'})? ; for all ~self.thread.top.locals: storage_dead(~self.thread.top, ~typed_load'.mem, each(~self.thread.top.locals).0) is Ok
terminator is Call => eval_call ; self := eval_call' ; eval_place(self, terminator.Call.ret)? ; prepare_for_inplace_passing(eval_place', eval_place.Ok.0.0, eval_place.Ok.0.1)? ; eval_value(prepare_for_inplace_passing', terminator.Call.callee)? ; loop = fold(terminator.Call.arguments, (eval_value'), each(terminator.Call.arguments), (after Machine::eval_argument(acc0))) ; eval_call(loop, fn_from_ptr(eval_value', eval_value.Ok.0.0).Ok.0, terminator.Call.calling_convention, [eval_argument(~eval_value', each(terminator.Call.arguments)).Ok.0 for terminator.Call.arguments], eval_place.Ok.0, terminator.Call.next_block, terminator.Call.unwind_block) ; fn_from_ptr(eval_value', eval_value.Ok.0.0)? ; for all terminator.Call.arguments: eval_argument(~eval_value', each(terminator.Call.arguments)) is Ok
terminator is Intrinsic & terminator.Intrinsic.next_block is None => Err(Ub("return from an intrinsic where caller did not specify next block"))
terminator is Intrinsic & terminator.Intrinsic.next_block is Some => Ok(()) ; self := jump_to_block' ; eval_place(self, terminator.Intrinsic.ret)? ; loop = fold(terminator.Intrinsic.arguments, (eval_place'), each(terminator.Intrinsic.arguments), (after Machine::eval_value(acc0))) ; eval_intrinsic(loop, terminator.Intrinsic.intrinsic, [eval_value(~eval_place', each(terminator.Intrinsic.arguments)).Ok.0 for terminator.Intrinsic.arguments], eval_place.Ok.0.1)? ; place_store(eval_intrinsic', eval_place.Ok.0.0, eval_intrinsic.Ok.0, eval_place.Ok.0.1)? ; jump_to_block(place_store', terminator.Intrinsic.next_block.Some.0)? ; for all terminator.Intrinsic.arguments: eval_value(~eval_place', each(terminator.Intrinsic.arguments)) is Ok
terminator is Unreachable => Err(Ub("reached unreachable code"))
terminator is Switch & eval_value.Ok.0.0 is Int & get(terminator.Switch.cases, eval_value.Ok.0.0.Int.0) is None => Ok(()) ; self := jump_to_block' ; eval_value(self, terminator.Switch.value)? ; jump_to_block(eval_value', terminator.Switch.fallback)?
terminator is Switch & eval_value.Ok.0.0 is Int & get(terminator.Switch.cases, eval_value.Ok.0.0.Int.0) is Some => Ok(()) ; self := jump_to_block' ; eval_value(self, terminator.Switch.value)? ; jump_to_block(eval_value', get(terminator.Switch.cases, eval_value.Ok.0.0.Int.0).Some.0)?
terminator is Goto => Ok(()) ; self := jump_to_block' ; jump_to_block(self, terminator.Goto.0)?
## Machine::jump_to_block(self, block)
not len(self.thread.stack) == 0 => Ok(()) ; self := self{.thread := self.thread{.top := jump_to_block'}} ; jump_to_block(self.thread.top, block)
## StackFrame::jump_to_block(self, b)
always => () ; self := self{.next_block := b}{.next_stmt := 0}
## Machine::terminate_active_thread(self)
self.active_thread == 0 => Err(Ub("the start function must not return"))
not self.active_thread == 0 & len(self.thread.stack) == 0 => Ok(()) ; self := self{.synchronized_threads := concat(self.synchronized_threads, filter_map(Range{start: 0, end: len(self.threads)}, {~self.threads{[self.active_thread] := self.thread{.state := Terminated}}[each(Range{start: 0, end: len(self.threads)})].state is BlockedOnJoin && self.active_thread == ~self.threads{[self.active_thread] := self.thread{.state := Terminated}}[each(Range{start: 0, end: len(self.threads)})].state.BlockedOnJoin.0: Some(each(Range{start: 0, end: len(self.threads)})); ~self.threads{[self.active_thread] := self.thread{.state := Terminated}}[each(Range{start: 0, end: len(self.threads)})].state is BlockedOnJoin && !(self.active_thread == ~self.threads{[self.active_thread] := self.thread{.state := Terminated}}[each(Range{start: 0, end: len(self.threads)})].state.BlockedOnJoin.0): None; !(~self.threads{[self.active_thread] := self.thread{.state := Terminated}}[each(Range{start: 0, end: len(self.threads)})].state is BlockedOnJoin): None}))}{.threads := [{each(self.threads{[self.active_thread] := self.thread{.state := Terminated}}).state is BlockedOnJoin && each(self.threads{[self.active_thread] := self.thread{.state := Terminated}}).state.BlockedOnJoin.0 == self.active_thread: each(self.threads{[self.active_thread] := self.thread{.state := Terminated}}){.state := Enabled}; each(self.threads{[self.active_thread] := self.thread{.state := Terminated}}).state is BlockedOnJoin && !(each(self.threads{[self.active_thread] := self.thread{.state := Terminated}}).state.BlockedOnJoin.0 == self.active_thread): each(self.threads{[self.active_thread] := self.thread{.state := Terminated}}); !(each(self.threads{[self.active_thread] := self.thread{.state := Terminated}}).state is BlockedOnJoin): each(self.threads{[self.active_thread] := self.thread{.state := Terminated}})} for enum(self.threads{[self.active_thread] := self.thread{.state := Terminated}})]} ; for all self.threads: !(!((-1*each(Range{start: 0, end: len(self.threads)}) + len(self.threads) + -1) >= 0)) && !(!(each(Range{start: 0, end: len(self.threads)}) >= 0)) && !(self.active_thread == ~self.threads{[self.active_thread] := self.thread{.state := Terminated}}[each(Range{start: 0, end: len(self.threads)})].state.BlockedOnJoin.0) && ~self.threads{[self.active_thread] := self.thread{.state := Terminated}}[each(Range{start: 0, end: len(self.threads)})].state is BlockedOnJoin || !(!((-1*each(Range{start: 0, end: len(self.threads)}) + len(self.threads) + -1) >= 0)) && !(!(each(Range{start: 0, end: len(self.threads)}) >= 0)) && !(~self.threads{[self.active_thread] := self.thread{.state := Terminated}}[each(Range{start: 0, end: len(self.threads)})].state is BlockedOnJoin) || !(!((-1*each(Range{start: 0, end: len(self.threads)}) + len(self.threads) + -1) >= 0)) && !(!(each(Range{start: 0, end: len(self.threads)}) >= 0)) && self.active_thread == ~self.threads{[self.active_thread] := self.thread{.state := Terminated}}[each(Range{start: 0, end: len(self.threads)})].state.BlockedOnJoin.0 && ~self.threads{[self.active_thread] := self.thread{.state := Terminated}}[each(Range{start: 0, end: len(self.threads)})].state is BlockedOnJoin
## Machine::step(self)
forall self.threads: !(each(self.threads).state is Enabled) => Err(Deadlock)
each(self.threads).state is Enabled & pick() >= 0 & (-1*pick() + len(reset_data_race_tracking'.threads) + -1) >= 0 & reset_data_race_tracking'.threads[pick()].state is Enabled & not len(reset_data_race_tracking'.threads[pick()].stack) == 0 & len(get(reset_data_race_tracking'.threads[pick()].top.func.blocks, reset_data_race_tracking'.threads[pick()].top.next_block).Some.0.statements) == reset_data_race_tracking'.threads[pick()].top.next_stmt => Ok(()) ; self := eval_terminator' ; reset_data_race_tracking(self) ; eval_terminator(reset_data_race_tracking'{.active_thread := pick()}, get(reset_data_race_tracking'.threads[pick()].top.func.blocks, reset_data_race_tracking'.threads[pick()].top.next_block).Some.0.terminator)? ; check_data_races(eval_terminator'.mem, eval_terminator'.active_thread, reset_data_race_tracking)?
each(self.threads).state is Enabled & pick() >= 0 & (-1*pick() + len(reset_data_race_tracking'.threads) + -1) >= 0 & reset_data_race_tracking'.threads[pick()].state is Enabled & not len(reset_data_race_tracking'.threads[pick()].stack) == 0 & not len(get(reset_data_race_tracking'.threads[pick()].top.func.blocks, reset_data_race_tracking'.threads[pick()].top.next_block).Some.0.statements) == reset_data_race_tracking'.threads[pick()].top.next_stmt & not len(eval_statement'.thread.stack) == 0 => Ok(()) ; self := eval_statement'{.thread := eval_statement'.thread{.top := eval_statement'.thread.top{.next_stmt := (eval_statement'.thread.top.next_stmt + 1)}}} ; reset_data_race_tracking(self) ; eval_statement(reset_data_race_tracking'{.active_thread := pick()}, get(reset_data_race_tracking'.threads[pick()].top.func.blocks, reset_data_race_tracking'.threads[pick()].top.next_block).Some.0.statements[reset_data_race_tracking'.threads[pick()].top.next_stmt])? ; check_data_races(eval_statement'.mem, eval_statement'.active_thread, reset_data_race_tracking)?
"""


def check(c):
    n = sp.book(c, T)
    c.floor("functions", n, 5)
