"""P35: minimize gives each Rust intrinsic it supports the meaning of that intrinsic."""
import mz
from tool import book

META = dict(rule="Decision table: for every supported Rust intrinsic, the statements and terminator (for catch_unwind: the blocks, their kinds and the temporaries) built on every path are compared with the intrinsic's meaning; every other intrinsic must be refused.")
T = r"""
## mz::FnCtxt::translate_rs_intrinsic(self, intrinsic, args, destination, target, span, unwind, bb)
NAME is "assert_inhabited" & not check_validity_requirement(self.tcx, (from_intrinsic(NAME)!, as_query_input(fully_monomorphized(), type_at(intrinsic.args, 0))))! => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: Abort, arguments: [], ret: UNITPLACE, next_block: None}}
NAME is "assert_inhabited" & check_validity_requirement(self.tcx, (from_intrinsic(NAME)!, as_query_input(fully_monomorphized(), type_at(intrinsic.args, 0))))! & target is Some => TerminatorResult{stmts: [], terminator: Goto(self.bb_name_map[target!])}
NAME is "assert_zero_valid" & not check_validity_requirement(self.tcx, (from_intrinsic(NAME)!, as_query_input(fully_monomorphized(), type_at(intrinsic.args, 0))))! => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: Abort, arguments: [], ret: UNITPLACE, next_block: None}}
NAME is "assert_zero_valid" & check_validity_requirement(self.tcx, (from_intrinsic(NAME)!, as_query_input(fully_monomorphized(), type_at(intrinsic.args, 0))))! & target is Some => TerminatorResult{stmts: [], terminator: Goto(self.bb_name_map[target!])}
NAME is "assert_mem_uninitialized_valid" & not check_validity_requirement(self.tcx, (from_intrinsic(NAME)!, as_query_input(fully_monomorphized(), type_at(intrinsic.args, 0))))! => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: Abort, arguments: [], ret: UNITPLACE, next_block: None}}
NAME is "assert_mem_uninitialized_valid" & check_validity_requirement(self.tcx, (from_intrinsic(NAME)!, as_query_input(fully_monomorphized(), type_at(intrinsic.args, 0))))! & target is Some => TerminatorResult{stmts: [], terminator: Goto(self.bb_name_map[target!])}
NAME is "raw_eq" & target is None => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: RawEq, arguments: [op(s(each(args).node)) for args], ret: place(s(destination)), next_block: None}}
NAME is "raw_eq" & target is Some => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: RawEq, arguments: [op(s(each(args).node)) for args], ret: place(s(destination)), next_block: Some(self.bb_name_map[target!])}}
NAME is "arith_offset" & is_sized(rslayout(pointee_ty(tyof(args[0].node))!)) & target is Some => TerminatorResult{stmts: [Assign{destination: place(s(destination)), source: BinOp{operator: PtrOffset{inbounds: False}, left: op(s(args[0].node)), right: BinOp{operator: Int(Mul), left: op(s(args[1].node)), right: Constant(Int(bytes(rslayout(pointee_ty(tyof(args[0].node))!).size)), type(tyof(args[1].node)))}}}], terminator: Goto(self.bb_name_map[target!])}
NAME is "ptr_offset_from" & is_sized(rslayout(pointee_ty(tyof(args[0].node))!)) & target is Some => TerminatorResult{stmts: [Assign{destination: place(s(destination)), source: BinOp{operator: Int(DivExact), left: BinOp{operator: PtrOffsetFrom{inbounds: True, nonneg: False}, left: op(s(args[0].node)), right: op(s(args[1].node))}, right: Constant(Int(bytes(rslayout(pointee_ty(tyof(args[0].node))!).size)), i64)}}], terminator: Goto(self.bb_name_map[target!])}
NAME is "ptr_offset_from_unsigned" & is_sized(rslayout(pointee_ty(tyof(args[0].node))!)) & target is Some => TerminatorResult{stmts: [Assign{destination: place(s(destination)), source: UnOp{operator: Cast(IntTou64), operand: BinOp{operator: Int(DivExact), left: BinOp{operator: PtrOffsetFrom{inbounds: True, nonneg: True}, left: op(s(args[0].node)), right: op(s(args[1].node))}, right: Constant(Int(bytes(rslayout(pointee_ty(tyof(args[0].node))!).size)), i64)}}}], terminator: Goto(self.bb_name_map[target!])}
NAME is "ctpop" & target is Some => TerminatorResult{stmts: [Assign{destination: place(s(destination)), source: UnOp{operator: Int(CountOnes), operand: op(s(args[0].node))}}], terminator: Goto(self.bb_name_map[target!])}
NAME is "exact_div" & target is Some => TerminatorResult{stmts: [Assign{destination: place(s(destination)), source: BinOp{operator: Int(DivExact), left: op(s(args[0].node)), right: op(s(args[1].node))}}], terminator: Goto(self.bb_name_map[target!])}
NAME is "size_of_val" & target is Some => TerminatorResult{stmts: [Assign{destination: place(s(destination)), source: UnOp{operator: ComputeSize(type(type_at(intrinsic.args, 0))), operand: UnOp{operator: GetMetadata, operand: op(s(args[0].node))}}}], terminator: Goto(self.bb_name_map[target!])}
NAME is "align_of_val" & target is Some => TerminatorResult{stmts: [Assign{destination: place(s(destination)), source: UnOp{operator: ComputeAlign(type(type_at(intrinsic.args, 0))), operand: UnOp{operator: GetMetadata, operand: op(s(args[0].node))}}}], terminator: Goto(self.bb_name_map[target!])}
NAME is "cold_path" & target is Some => TerminatorResult{stmts: [], terminator: Goto(self.bb_name_map[target!])}
NAME is "catch_unwind" & target is Some => TerminatorResult{stmts: [], terminator: translate_catch_unwind(self, [op(s(each(args).node)) for args], place(s(destination)), self.bb_name_map[target!])}
NAME is "abort" => TerminatorResult{stmts: [], terminator: Intrinsic{intrinsic: Abort, arguments: [], ret: UNITPLACE, next_block: None}}
## mz::FnCtxt::translate_catch_unwind(self, args, destination, target)
always => Goto(b0) ; b0 = BasicBlock{statements: [StorageLive(l0), StorageLive(l1), StorageLive(l2), StorageLive(l3), Assign{destination: Local(l0), source: AddrOf{target: destination, ptr_ty: Raw{meta_kind: None}}}, Assign{destination: Local(l1), source: args[0]}, Assign{destination: Local(l2), source: args[1]}, Assign{destination: Local(l3), source: args[2]}], terminator: Call{callee: Load{source: Local(l1)}, calling_convention: Rust, arguments: [ByValue(Load{source: Local(l2)})], ret: UNITPLACE, next_block: Some(b1), unwind_block: Some(b2)}, kind: Regular} ; l0 = Ptr(Raw{meta_kind: None}) ; l1 = Ptr(FnPtr) ; l2 = Ptr(Raw{meta_kind: None}) ; l3 = Ptr(FnPtr) ; b1 = BasicBlock{statements: [Assign{destination: Deref{operand: Load{source: Local(l0)}, ty: i32}, source: Constant(Int(0), i32)}, StorageDead(l0), StorageDead(l1), StorageDead(l2), StorageDead(l3)], terminator: Goto(target), kind: Regular} ; b2 = BasicBlock{statements: [StorageLive(l4)], terminator: Intrinsic{intrinsic: GetUnwindPayload, arguments: [], ret: Local(l4), next_block: Some(b3)}, kind: Catch} ; l4 = Ptr(Raw{meta_kind: None}) ; b3 = BasicBlock{statements: [Assign{destination: Deref{operand: Load{source: Local(l0)}, ty: i32}, source: Constant(Int(1), i32)}], terminator: Call{callee: Load{source: Local(l3)}, calling_convention: Rust, arguments: [ByValue(Load{source: Local(l2)}), ByValue(Load{source: Local(l4)})], ret: UNITPLACE, next_block: Some(b4), unwind_block: None}, kind: Catch} ; b4 = BasicBlock{statements: [StorageDead(l0), StorageDead(l1), StorageDead(l2), StorageDead(l3)], terminator: StopUnwind(target), kind: Catch}
"""


def check(c):
    mz.setup()
    n = book(c, T, mz.STEPS + [mz.F + "translate_catch_unwind"], show=mz.frag)
    c.floor("translated functions", n, 2)
