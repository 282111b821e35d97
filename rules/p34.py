"""P34: minimize translates calls: callee, calling convention, argument passing, dispatch, panics and MiniRust intrinsics."""
import mz
from tool import book

META = dict(rule="Decision table: for every kind of callee (function pointer, direct, virtual, panic entry point, MiniRust intrinsic, foreign), the call terminator built on every path - callee, convention, arguments and how each is passed, destination, continuation, unwind block - is compared with the expected one.")
T = r"""
## mz::FnCtxt::translate_call(self, func, rs_args, destination, target, span, unwind, bb)
kind(tyof(func)) is FnPtr & target is None => TerminatorResult{stmts: [], terminator: Call{callee: op(s(func)), calling_convention: cc(PTRCONV), arguments: [ARG for rs_args], ret: place(s(destination)), next_block: None, unwind_block: Some(unwind_to(unwind))}}
kind(tyof(func)) is FnPtr & target is Some => TerminatorResult{stmts: [], terminator: Call{callee: op(s(func)), calling_convention: cc(PTRCONV), arguments: [ARG for rs_args], ret: place(s(destination)), next_block: Some(self.bb_name_map[target!]), unwind_block: Some(unwind_to(unwind))}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & CRATE is "intrinsics" & ITEM is "print" & target is None => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: PrintStdout, arguments: [op(s(each(rs_args).node)) for rs_args], ret: place(s(destination)), next_block: None}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & CRATE is "intrinsics" & ITEM is "print" & target is Some => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: PrintStdout, arguments: [op(s(each(rs_args).node)) for rs_args], ret: place(s(destination)), next_block: Some(self.bb_name_map[target!])}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & CRATE is "intrinsics" & ITEM is "eprint" & target is None => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: PrintStderr, arguments: [op(s(each(rs_args).node)) for rs_args], ret: place(s(destination)), next_block: None}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & CRATE is "intrinsics" & ITEM is "eprint" & target is Some => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: PrintStderr, arguments: [op(s(each(rs_args).node)) for rs_args], ret: place(s(destination)), next_block: Some(self.bb_name_map[target!])}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & CRATE is "intrinsics" & ITEM is "exit" & target is None => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: Exit, arguments: [op(s(each(rs_args).node)) for rs_args], ret: place(s(destination)), next_block: None}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & CRATE is "intrinsics" & ITEM is "exit" & target is Some => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: Exit, arguments: [op(s(each(rs_args).node)) for rs_args], ret: place(s(destination)), next_block: Some(self.bb_name_map[target!])}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & CRATE is "intrinsics" & ITEM is "panic" & target is None => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: Abort, arguments: [op(s(each(rs_args).node)) for rs_args], ret: place(s(destination)), next_block: None}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & CRATE is "intrinsics" & ITEM is "panic" & target is Some => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: Abort, arguments: [op(s(each(rs_args).node)) for rs_args], ret: place(s(destination)), next_block: Some(self.bb_name_map[target!])}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & CRATE is "intrinsics" & ITEM is "allocate" & target is None => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: Allocate, arguments: [op(s(each(rs_args).node)) for rs_args], ret: place(s(destination)), next_block: None}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & CRATE is "intrinsics" & ITEM is "allocate" & target is Some => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: Allocate, arguments: [op(s(each(rs_args).node)) for rs_args], ret: place(s(destination)), next_block: Some(self.bb_name_map[target!])}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & CRATE is "intrinsics" & ITEM is "deallocate" & target is None => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: Deallocate, arguments: [op(s(each(rs_args).node)) for rs_args], ret: place(s(destination)), next_block: None}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & CRATE is "intrinsics" & ITEM is "deallocate" & target is Some => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: Deallocate, arguments: [op(s(each(rs_args).node)) for rs_args], ret: place(s(destination)), next_block: Some(self.bb_name_map[target!])}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & CRATE is "intrinsics" & ITEM is "spawn" & target is None => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: Spawn, arguments: [op(s(each(rs_args).node)) for rs_args], ret: place(s(destination)), next_block: None}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & CRATE is "intrinsics" & ITEM is "spawn" & target is Some => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: Spawn, arguments: [op(s(each(rs_args).node)) for rs_args], ret: place(s(destination)), next_block: Some(self.bb_name_map[target!])}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & CRATE is "intrinsics" & ITEM is "join" & target is None => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: Join, arguments: [op(s(each(rs_args).node)) for rs_args], ret: place(s(destination)), next_block: None}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & CRATE is "intrinsics" & ITEM is "join" & target is Some => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: Join, arguments: [op(s(each(rs_args).node)) for rs_args], ret: place(s(destination)), next_block: Some(self.bb_name_map[target!])}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & CRATE is "intrinsics" & ITEM is "create_lock" & target is None => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: Lock(Create), arguments: [op(s(each(rs_args).node)) for rs_args], ret: place(s(destination)), next_block: None}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & CRATE is "intrinsics" & ITEM is "create_lock" & target is Some => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: Lock(Create), arguments: [op(s(each(rs_args).node)) for rs_args], ret: place(s(destination)), next_block: Some(self.bb_name_map[target!])}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & CRATE is "intrinsics" & ITEM is "acquire" & target is None => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: Lock(Acquire), arguments: [op(s(each(rs_args).node)) for rs_args], ret: place(s(destination)), next_block: None}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & CRATE is "intrinsics" & ITEM is "acquire" & target is Some => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: Lock(Acquire), arguments: [op(s(each(rs_args).node)) for rs_args], ret: place(s(destination)), next_block: Some(self.bb_name_map[target!])}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & CRATE is "intrinsics" & ITEM is "release" & target is None => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: Lock(Release), arguments: [op(s(each(rs_args).node)) for rs_args], ret: place(s(destination)), next_block: None}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & CRATE is "intrinsics" & ITEM is "release" & target is Some => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: Lock(Release), arguments: [op(s(each(rs_args).node)) for rs_args], ret: place(s(destination)), next_block: Some(self.bb_name_map[target!])}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & CRATE is "intrinsics" & ITEM is "atomic_store" & target is None => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: AtomicStore, arguments: [op(s(each(rs_args).node)) for rs_args], ret: place(s(destination)), next_block: None}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & CRATE is "intrinsics" & ITEM is "atomic_store" & target is Some => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: AtomicStore, arguments: [op(s(each(rs_args).node)) for rs_args], ret: place(s(destination)), next_block: Some(self.bb_name_map[target!])}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & CRATE is "intrinsics" & ITEM is "atomic_load" & target is None => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: AtomicLoad, arguments: [op(s(each(rs_args).node)) for rs_args], ret: place(s(destination)), next_block: None}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & CRATE is "intrinsics" & ITEM is "atomic_load" & target is Some => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: AtomicLoad, arguments: [op(s(each(rs_args).node)) for rs_args], ret: place(s(destination)), next_block: Some(self.bb_name_map[target!])}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & CRATE is "intrinsics" & ITEM is "compare_exchange" & target is None => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: AtomicCompareExchange, arguments: [op(s(each(rs_args).node)) for rs_args], ret: place(s(destination)), next_block: None}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & CRATE is "intrinsics" & ITEM is "compare_exchange" & target is Some => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: AtomicCompareExchange, arguments: [op(s(each(rs_args).node)) for rs_args], ret: place(s(destination)), next_block: Some(self.bb_name_map[target!])}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & CRATE is "intrinsics" & ITEM is "atomic_fetch_add" & target is None => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: AtomicFetchAndOp(Add), arguments: [op(s(each(rs_args).node)) for rs_args], ret: place(s(destination)), next_block: None}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & CRATE is "intrinsics" & ITEM is "atomic_fetch_add" & target is Some => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: AtomicFetchAndOp(Add), arguments: [op(s(each(rs_args).node)) for rs_args], ret: place(s(destination)), next_block: Some(self.bb_name_map[target!])}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & CRATE is "intrinsics" & ITEM is "atomic_fetch_sub" & target is None => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: AtomicFetchAndOp(Sub), arguments: [op(s(each(rs_args).node)) for rs_args], ret: place(s(destination)), next_block: None}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & CRATE is "intrinsics" & ITEM is "atomic_fetch_sub" & target is Some => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: AtomicFetchAndOp(Sub), arguments: [op(s(each(rs_args).node)) for rs_args], ret: place(s(destination)), next_block: Some(self.bb_name_map[target!])}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & not CRATE is "intrinsics" & is_panic_fn(INSTANCE) => TerminatorResult{stmts: [], terminator: panic(unwind)}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & not CRATE is "intrinsics" & not is_panic_fn(INSTANCE) & not is_foreign_item(self.tcx, def_id(INSTANCE)) & abi(fn_sig(tyof(func), self.tcx)) is RustCall & len(rs_args) == 0 & not INSTANCE.def is Virtual & target is None => TerminatorResult{stmts: [], terminator: Call{callee: Constant(FnPointer(fn_name(INSTANCE)), Ptr(FnPtr)), calling_convention: cc(CONV), arguments: [ARG for rs_args], ret: place(s(destination)), next_block: None, unwind_block: Some(unwind_to(unwind))}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & not CRATE is "intrinsics" & not is_panic_fn(INSTANCE) & not is_foreign_item(self.tcx, def_id(INSTANCE)) & abi(fn_sig(tyof(func), self.tcx)) is RustCall & len(rs_args) == 0 & not INSTANCE.def is Virtual & target is Some => TerminatorResult{stmts: [], terminator: Call{callee: Constant(FnPointer(fn_name(INSTANCE)), Ptr(FnPtr)), calling_convention: cc(CONV), arguments: [ARG for rs_args], ret: place(s(destination)), next_block: Some(self.bb_name_map[target!]), unwind_block: Some(unwind_to(unwind))}}
kind(tyof(func)) is FnDef & not CRATE is "intrinsics" & not is_panic_fn(INSTANCE) & not is_foreign_item(self.tcx, def_id(INSTANCE)) & abi(fn_sig(tyof(func), self.tcx)) is RustCall & len(rs_args) == 0 & INSTANCE.def is Virtual & target is None => TerminatorResult{stmts: [], terminator: Call{callee: UnOp{operator: VTableMethodLookup(TraitMethodName(from_internal(INSTANCE.def.Virtual.1))), operand: UnOp{operator: GetMetadata, operand: op(s(rs_args[0].node))}}, calling_convention: cc(CONV), arguments: [ARG for rs_args]{[0] := ByValue(UnOp{operator: GetThinPointer, operand: op(s(rs_args[0].node))})}, ret: place(s(destination)), next_block: None, unwind_block: Some(unwind_to(unwind))}}
kind(tyof(func)) is FnDef & not CRATE is "intrinsics" & not is_panic_fn(INSTANCE) & not is_foreign_item(self.tcx, def_id(INSTANCE)) & abi(fn_sig(tyof(func), self.tcx)) is RustCall & len(rs_args) == 0 & INSTANCE.def is Virtual & target is Some => TerminatorResult{stmts: [], terminator: Call{callee: UnOp{operator: VTableMethodLookup(TraitMethodName(from_internal(INSTANCE.def.Virtual.1))), operand: UnOp{operator: GetMetadata, operand: op(s(rs_args[0].node))}}, calling_convention: cc(CONV), arguments: [ARG for rs_args]{[0] := ByValue(UnOp{operator: GetThinPointer, operand: op(s(rs_args[0].node))})}, ret: place(s(destination)), next_block: Some(self.bb_name_map[target!]), unwind_block: Some(unwind_to(unwind))}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & not CRATE is "intrinsics" & not is_panic_fn(INSTANCE) & not is_foreign_item(self.tcx, def_id(INSTANCE)) & abi(fn_sig(tyof(func), self.tcx)) is RustCall & not len(rs_args) == 0 & split_last(rs_args)!.0.node is Move & kind(tyof(split_last(rs_args)!.0.node)) is Tuple & not INSTANCE.def is Virtual & target is None => TerminatorResult{stmts: [], terminator: Call{callee: Constant(FnPointer(fn_name(INSTANCE)), Ptr(FnPtr)), calling_convention: cc(CONV), arguments: concat([{each(split_last(rs_args)!.1).node is Move: InPlace(place(s(each(split_last(rs_args)!.1).node.Move.0))); !(each(split_last(rs_args)!.1).node is Move): ByValue(op(s(each(split_last(rs_args)!.1).node)))} for split_last(rs_args)!.1], [InPlace(place(s(project_deeper(split_last(rs_args)!.0.node.Move.0, [Field(from_usize(pos(kind(tyof(split_last(rs_args)!.0.node)).Tuple.0, 0)), each(kind(tyof(split_last(rs_args)!.0.node)).Tuple.0))], self.tcx)))) for enum(kind(tyof(split_last(rs_args)!.0.node)).Tuple.0)]), ret: place(s(destination)), next_block: None, unwind_block: Some(unwind_to(unwind))}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & not CRATE is "intrinsics" & not is_panic_fn(INSTANCE) & not is_foreign_item(self.tcx, def_id(INSTANCE)) & abi(fn_sig(tyof(func), self.tcx)) is RustCall & not len(rs_args) == 0 & split_last(rs_args)!.0.node is Move & kind(tyof(split_last(rs_args)!.0.node)) is Tuple & not INSTANCE.def is Virtual & target is Some => TerminatorResult{stmts: [], terminator: Call{callee: Constant(FnPointer(fn_name(INSTANCE)), Ptr(FnPtr)), calling_convention: cc(CONV), arguments: concat([{each(split_last(rs_args)!.1).node is Move: InPlace(place(s(each(split_last(rs_args)!.1).node.Move.0))); !(each(split_last(rs_args)!.1).node is Move): ByValue(op(s(each(split_last(rs_args)!.1).node)))} for split_last(rs_args)!.1], [InPlace(place(s(project_deeper(split_last(rs_args)!.0.node.Move.0, [Field(from_usize(pos(kind(tyof(split_last(rs_args)!.0.node)).Tuple.0, 0)), each(kind(tyof(split_last(rs_args)!.0.node)).Tuple.0))], self.tcx)))) for enum(kind(tyof(split_last(rs_args)!.0.node)).Tuple.0)]), ret: place(s(destination)), next_block: Some(self.bb_name_map[target!]), unwind_block: Some(unwind_to(unwind))}}
kind(tyof(func)) is FnDef & not CRATE is "intrinsics" & not is_panic_fn(INSTANCE) & not is_foreign_item(self.tcx, def_id(INSTANCE)) & abi(fn_sig(tyof(func), self.tcx)) is RustCall & not len(rs_args) == 0 & split_last(rs_args)!.0.node is Move & kind(tyof(split_last(rs_args)!.0.node)) is Tuple & INSTANCE.def is Virtual & target is None => TerminatorResult{stmts: [], terminator: Call{callee: UnOp{operator: VTableMethodLookup(TraitMethodName(from_internal(INSTANCE.def.Virtual.1))), operand: UnOp{operator: GetMetadata, operand: op(s(rs_args[0].node))}}, calling_convention: cc(CONV), arguments: concat([{each(split_last(rs_args)!.1).node is Move: InPlace(place(s(each(split_last(rs_args)!.1).node.Move.0))); !(each(split_last(rs_args)!.1).node is Move): ByValue(op(s(each(split_last(rs_args)!.1).node)))} for split_last(rs_args)!.1], [InPlace(place(s(project_deeper(split_last(rs_args)!.0.node.Move.0, [Field(from_usize(pos(kind(tyof(split_last(rs_args)!.0.node)).Tuple.0, 0)), each(kind(tyof(split_last(rs_args)!.0.node)).Tuple.0))], self.tcx)))) for enum(kind(tyof(split_last(rs_args)!.0.node)).Tuple.0)]){[0] := ByValue(UnOp{operator: GetThinPointer, operand: op(s(rs_args[0].node))})}, ret: place(s(destination)), next_block: None, unwind_block: Some(unwind_to(unwind))}}
kind(tyof(func)) is FnDef & not CRATE is "intrinsics" & not is_panic_fn(INSTANCE) & not is_foreign_item(self.tcx, def_id(INSTANCE)) & abi(fn_sig(tyof(func), self.tcx)) is RustCall & not len(rs_args) == 0 & split_last(rs_args)!.0.node is Move & kind(tyof(split_last(rs_args)!.0.node)) is Tuple & INSTANCE.def is Virtual & target is Some => TerminatorResult{stmts: [], terminator: Call{callee: UnOp{operator: VTableMethodLookup(TraitMethodName(from_internal(INSTANCE.def.Virtual.1))), operand: UnOp{operator: GetMetadata, operand: op(s(rs_args[0].node))}}, calling_convention: cc(CONV), arguments: concat([{each(split_last(rs_args)!.1).node is Move: InPlace(place(s(each(split_last(rs_args)!.1).node.Move.0))); !(each(split_last(rs_args)!.1).node is Move): ByValue(op(s(each(split_last(rs_args)!.1).node)))} for split_last(rs_args)!.1], [InPlace(place(s(project_deeper(split_last(rs_args)!.0.node.Move.0, [Field(from_usize(pos(kind(tyof(split_last(rs_args)!.0.node)).Tuple.0, 0)), each(kind(tyof(split_last(rs_args)!.0.node)).Tuple.0))], self.tcx)))) for enum(kind(tyof(split_last(rs_args)!.0.node)).Tuple.0)]){[0] := ByValue(UnOp{operator: GetThinPointer, operand: op(s(rs_args[0].node))})}, ret: place(s(destination)), next_block: Some(self.bb_name_map[target!]), unwind_block: Some(unwind_to(unwind))}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & not CRATE is "intrinsics" & not is_panic_fn(INSTANCE) & not is_foreign_item(self.tcx, def_id(INSTANCE)) & abi(fn_sig(tyof(func), self.tcx)) is RustCall & not len(rs_args) == 0 & split_last(rs_args)!.0.node is Copy & kind(tyof(split_last(rs_args)!.0.node)) is Tuple & not INSTANCE.def is Virtual & target is None => TerminatorResult{stmts: [], terminator: Call{callee: Constant(FnPointer(fn_name(INSTANCE)), Ptr(FnPtr)), calling_convention: cc(CONV), arguments: concat([{each(split_last(rs_args)!.1).node is Move: InPlace(place(s(each(split_last(rs_args)!.1).node.Move.0))); !(each(split_last(rs_args)!.1).node is Move): ByValue(op(s(each(split_last(rs_args)!.1).node)))} for split_last(rs_args)!.1], [ByValue(Load{source: place(s(project_deeper(split_last(rs_args)!.0.node.Copy.0, [Field(from_usize(pos(kind(tyof(split_last(rs_args)!.0.node)).Tuple.0, 0)), each(kind(tyof(split_last(rs_args)!.0.node)).Tuple.0))], self.tcx)))}) for enum(kind(tyof(split_last(rs_args)!.0.node)).Tuple.0)]), ret: place(s(destination)), next_block: None, unwind_block: Some(unwind_to(unwind))}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & not CRATE is "intrinsics" & not is_panic_fn(INSTANCE) & not is_foreign_item(self.tcx, def_id(INSTANCE)) & abi(fn_sig(tyof(func), self.tcx)) is RustCall & not len(rs_args) == 0 & split_last(rs_args)!.0.node is Copy & kind(tyof(split_last(rs_args)!.0.node)) is Tuple & not INSTANCE.def is Virtual & target is Some => TerminatorResult{stmts: [], terminator: Call{callee: Constant(FnPointer(fn_name(INSTANCE)), Ptr(FnPtr)), calling_convention: cc(CONV), arguments: concat([{each(split_last(rs_args)!.1).node is Move: InPlace(place(s(each(split_last(rs_args)!.1).node.Move.0))); !(each(split_last(rs_args)!.1).node is Move): ByValue(op(s(each(split_last(rs_args)!.1).node)))} for split_last(rs_args)!.1], [ByValue(Load{source: place(s(project_deeper(split_last(rs_args)!.0.node.Copy.0, [Field(from_usize(pos(kind(tyof(split_last(rs_args)!.0.node)).Tuple.0, 0)), each(kind(tyof(split_last(rs_args)!.0.node)).Tuple.0))], self.tcx)))}) for enum(kind(tyof(split_last(rs_args)!.0.node)).Tuple.0)]), ret: place(s(destination)), next_block: Some(self.bb_name_map[target!]), unwind_block: Some(unwind_to(unwind))}}
kind(tyof(func)) is FnDef & not CRATE is "intrinsics" & not is_panic_fn(INSTANCE) & not is_foreign_item(self.tcx, def_id(INSTANCE)) & abi(fn_sig(tyof(func), self.tcx)) is RustCall & not len(rs_args) == 0 & split_last(rs_args)!.0.node is Copy & kind(tyof(split_last(rs_args)!.0.node)) is Tuple & INSTANCE.def is Virtual & target is None => TerminatorResult{stmts: [], terminator: Call{callee: UnOp{operator: VTableMethodLookup(TraitMethodName(from_internal(INSTANCE.def.Virtual.1))), operand: UnOp{operator: GetMetadata, operand: op(s(rs_args[0].node))}}, calling_convention: cc(CONV), arguments: concat([{each(split_last(rs_args)!.1).node is Move: InPlace(place(s(each(split_last(rs_args)!.1).node.Move.0))); !(each(split_last(rs_args)!.1).node is Move): ByValue(op(s(each(split_last(rs_args)!.1).node)))} for split_last(rs_args)!.1], [ByValue(Load{source: place(s(project_deeper(split_last(rs_args)!.0.node.Copy.0, [Field(from_usize(pos(kind(tyof(split_last(rs_args)!.0.node)).Tuple.0, 0)), each(kind(tyof(split_last(rs_args)!.0.node)).Tuple.0))], self.tcx)))}) for enum(kind(tyof(split_last(rs_args)!.0.node)).Tuple.0)]){[0] := ByValue(UnOp{operator: GetThinPointer, operand: op(s(rs_args[0].node))})}, ret: place(s(destination)), next_block: None, unwind_block: Some(unwind_to(unwind))}}
kind(tyof(func)) is FnDef & not CRATE is "intrinsics" & not is_panic_fn(INSTANCE) & not is_foreign_item(self.tcx, def_id(INSTANCE)) & abi(fn_sig(tyof(func), self.tcx)) is RustCall & not len(rs_args) == 0 & split_last(rs_args)!.0.node is Copy & kind(tyof(split_last(rs_args)!.0.node)) is Tuple & INSTANCE.def is Virtual & target is Some => TerminatorResult{stmts: [], terminator: Call{callee: UnOp{operator: VTableMethodLookup(TraitMethodName(from_internal(INSTANCE.def.Virtual.1))), operand: UnOp{operator: GetMetadata, operand: op(s(rs_args[0].node))}}, calling_convention: cc(CONV), arguments: concat([{each(split_last(rs_args)!.1).node is Move: InPlace(place(s(each(split_last(rs_args)!.1).node.Move.0))); !(each(split_last(rs_args)!.1).node is Move): ByValue(op(s(each(split_last(rs_args)!.1).node)))} for split_last(rs_args)!.1], [ByValue(Load{source: place(s(project_deeper(split_last(rs_args)!.0.node.Copy.0, [Field(from_usize(pos(kind(tyof(split_last(rs_args)!.0.node)).Tuple.0, 0)), each(kind(tyof(split_last(rs_args)!.0.node)).Tuple.0))], self.tcx)))}) for enum(kind(tyof(split_last(rs_args)!.0.node)).Tuple.0)]){[0] := ByValue(UnOp{operator: GetThinPointer, operand: op(s(rs_args[0].node))})}, ret: place(s(destination)), next_block: Some(self.bb_name_map[target!]), unwind_block: Some(unwind_to(unwind))}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & not CRATE is "intrinsics" & not is_panic_fn(INSTANCE) & not is_foreign_item(self.tcx, def_id(INSTANCE)) & not abi(fn_sig(tyof(func), self.tcx)) is RustCall & not INSTANCE.def is Virtual & target is None => TerminatorResult{stmts: [], terminator: Call{callee: Constant(FnPointer(fn_name(INSTANCE)), Ptr(FnPtr)), calling_convention: cc(CONV), arguments: [ARG for rs_args], ret: place(s(destination)), next_block: None, unwind_block: Some(unwind_to(unwind))}}
kind(tyof(func)) is FnDef & not INSTANCE.def is Intrinsic & not CRATE is "intrinsics" & not is_panic_fn(INSTANCE) & not is_foreign_item(self.tcx, def_id(INSTANCE)) & not abi(fn_sig(tyof(func), self.tcx)) is RustCall & not INSTANCE.def is Virtual & target is Some => TerminatorResult{stmts: [], terminator: Call{callee: Constant(FnPointer(fn_name(INSTANCE)), Ptr(FnPtr)), calling_convention: cc(CONV), arguments: [ARG for rs_args], ret: place(s(destination)), next_block: Some(self.bb_name_map[target!]), unwind_block: Some(unwind_to(unwind))}}
kind(tyof(func)) is FnDef & not CRATE is "intrinsics" & not is_panic_fn(INSTANCE) & not is_foreign_item(self.tcx, def_id(INSTANCE)) & not abi(fn_sig(tyof(func), self.tcx)) is RustCall & INSTANCE.def is Virtual & target is None => TerminatorResult{stmts: [], terminator: Call{callee: UnOp{operator: VTableMethodLookup(TraitMethodName(from_internal(INSTANCE.def.Virtual.1))), operand: UnOp{operator: GetMetadata, operand: op(s(rs_args[0].node))}}, calling_convention: cc(CONV), arguments: [ARG for rs_args]{[0] := ByValue(UnOp{operator: GetThinPointer, operand: op(s(rs_args[0].node))})}, ret: place(s(destination)), next_block: None, unwind_block: Some(unwind_to(unwind))}}
kind(tyof(func)) is FnDef & not CRATE is "intrinsics" & not is_panic_fn(INSTANCE) & not is_foreign_item(self.tcx, def_id(INSTANCE)) & not abi(fn_sig(tyof(func), self.tcx)) is RustCall & INSTANCE.def is Virtual & target is Some => TerminatorResult{stmts: [], terminator: Call{callee: UnOp{operator: VTableMethodLookup(TraitMethodName(from_internal(INSTANCE.def.Virtual.1))), operand: UnOp{operator: GetMetadata, operand: op(s(rs_args[0].node))}}, calling_convention: cc(CONV), arguments: [ARG for rs_args]{[0] := ByValue(UnOp{operator: GetThinPointer, operand: op(s(rs_args[0].node))})}, ret: place(s(destination)), next_block: Some(self.bb_name_map[target!]), unwind_block: Some(unwind_to(unwind))}}
kind(tyof(func)) is FnDef & INSTANCE.def is Intrinsic => translate_rs_intrinsic(self, INSTANCE, rs_args, destination, target, span)
## mz::is_panic_fn(name)
name is "core::panicking::panic" => True
name is "core::panicking::panic_fmt" => True
name is "core::panicking::panic_nounwind" => True
name is "core::panicking::panic_nounwind_fmt" => True
name is "core::slice::index::slice_start_index_len_fail" => True
name is "core::slice::index::slice_end_index_len_fail" => True
name is "core::slice::index::slice_end_index_overflow_fail" => True
name is "core::slice::index::slice_index_order_fail" => True
name is "core::slice::index::slice_index_fail" => True
name is "core::str::slice_error_fail" => True
name is "std::rt::panic_fmt" => True
not name is "core::panicking::panic" & not name is "core::panicking::panic_fmt" & not name is "core::panicking::panic_nounwind" & not name is "core::panicking::panic_nounwind_fmt" & not name is "core::slice::index::slice_start_index_len_fail" & not name is "core::slice::index::slice_end_index_len_fail" & not name is "core::slice::index::slice_end_index_overflow_fail" & not name is "core::slice::index::slice_index_order_fail" & not name is "core::slice::index::slice_index_fail" & not name is "core::str::slice_error_fail" & not name is "std::rt::panic_fmt" => False
## mz::translate_calling_convention(conv)
conv is Rust => Rust
conv is C => C
"""


def check(c):
    mz.setup()
    n = book(c, T, mz.STEPS + [mz.F + "translate_rs_intrinsic", "mz::is_panic_fn"], show=mz.frag)
    c.floor("translated functions", n, 3)
