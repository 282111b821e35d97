"""P33: minimize translates every statement, terminator and unwind action faithfully."""
import mz
from tool import book

META = dict(rule="Decision table: for every kind of MIR statement and terminator and every unwind action, the MiniRust statement or terminator (and the auxiliary blocks, with their kinds) built on every path is compared with the construct it stands for; what the table does not list must be refused.")
T = r"""
## mz::FnCtxt::translate_stmt(self, stmt)
stmt.kind is Intrinsic & stmt.kind.Intrinsic is Assume => Intrinsic{intrinsic: Assume, destination: UNITPLACE, arguments: [op(s(stmt.kind.Intrinsic.Assume.0))]}
stmt.kind is PlaceMention => Statement(PlaceMention(place(s(stmt.kind.PlaceMention))))
stmt.kind is Retag & not stmt.kind.Retag.0 is FnEntry => Statement(Validate{place: place(s(stmt.kind.Retag.1.0.pointer)), fn_entry: False})
stmt.kind is Retag & stmt.kind.Retag.0 is FnEntry => Statement(Validate{place: place(s(stmt.kind.Retag.1.0.pointer)), fn_entry: True})
stmt.kind is StorageDead => Statement(StorageDead(self.local_name_map[stmt.kind.StorageDead.0]))
stmt.kind is StorageLive => Statement(StorageLive(self.local_name_map[stmt.kind.StorageLive.0]))
stmt.kind is SetDiscriminant => Statement(SetDiscriminant{destination: place(s(stmt.kind.SetDiscriminant.place.0.pointer)), value: discr(tyof(stmt.kind.SetDiscriminant.place.0.pointer).ty, stmt.kind.SetDiscriminant.variant_index)})
stmt.kind is Assign & not stmt.kind.Assign.1 is Cast => Statement(Assign{destination: place(s(stmt.kind.Assign.0)), source: rvalue(s(stmt.kind.Assign.1))})
stmt.kind is Assign & stmt.kind.Assign.1 is Cast & not stmt.kind.Assign.1.Cast.0 is PointerExposeProvenance & not stmt.kind.Assign.1.Cast.0 is PointerWithExposedProvenance => Statement(Assign{destination: place(s(stmt.kind.Assign.0)), source: rvalue(s(stmt.kind.Assign.1))})
stmt.kind is Assign & stmt.kind.Assign.1 is Cast & stmt.kind.Assign.1.Cast.0 is PointerWithExposedProvenance => Intrinsic{intrinsic: PointerWithExposedProvenance, destination: place(s(stmt.kind.Assign.0)), arguments: [op(s(stmt.kind.Assign.1.Cast.1))]}
stmt.kind is Assign & stmt.kind.Assign.1 is Cast & stmt.kind.Assign.1.Cast.0 is PointerExposeProvenance => Intrinsic{intrinsic: PointerExposeProvenance, destination: place(s(stmt.kind.Assign.0)), arguments: [op(s(stmt.kind.Assign.1.Cast.1))]}
## mz::FnCtxt::translate_terminator(self, bb)
terminator(bb).kind is Assert & not terminator(bb).kind.Assert.expected & bb.is_cleanup => TerminatorResult{stmts: [], terminator: Switch{value: UnOp{operator: Cast(Transmute(u8)), operand: UnOp{operator: Cast(Transmute(Bool)), operand: BinOp{operator: Int(Sub), left: Constant(Int(1), u8), right: UnOp{operator: Cast(Transmute(u8)), operand: op(s(terminator(bb).kind.Assert.cond))}}}}, cases: [(1, self.bb_name_map[terminator(bb).kind.Assert.target])], fallback: b0}} ; b0 = BasicBlock{statements: [], terminator: panic(terminator(bb).kind.Assert.unwind), kind: Cleanup}
terminator(bb).kind is Assert & not terminator(bb).kind.Assert.expected & not bb.is_cleanup => TerminatorResult{stmts: [], terminator: Switch{value: UnOp{operator: Cast(Transmute(u8)), operand: UnOp{operator: Cast(Transmute(Bool)), operand: BinOp{operator: Int(Sub), left: Constant(Int(1), u8), right: UnOp{operator: Cast(Transmute(u8)), operand: op(s(terminator(bb).kind.Assert.cond))}}}}, cases: [(1, self.bb_name_map[terminator(bb).kind.Assert.target])], fallback: b0}} ; b0 = BasicBlock{statements: [], terminator: panic(terminator(bb).kind.Assert.unwind), kind: Regular}
terminator(bb).kind is Assert & terminator(bb).kind.Assert.expected & bb.is_cleanup => TerminatorResult{stmts: [], terminator: Switch{value: UnOp{operator: Cast(Transmute(u8)), operand: op(s(terminator(bb).kind.Assert.cond))}, cases: [(1, self.bb_name_map[terminator(bb).kind.Assert.target])], fallback: b0}} ; b0 = BasicBlock{statements: [], terminator: panic(terminator(bb).kind.Assert.unwind), kind: Cleanup}
terminator(bb).kind is Assert & terminator(bb).kind.Assert.expected & not bb.is_cleanup => TerminatorResult{stmts: [], terminator: Switch{value: UnOp{operator: Cast(Transmute(u8)), operand: op(s(terminator(bb).kind.Assert.cond))}, cases: [(1, self.bb_name_map[terminator(bb).kind.Assert.target])], fallback: b0}} ; b0 = BasicBlock{statements: [], terminator: panic(terminator(bb).kind.Assert.unwind), kind: Regular}
terminator(bb).kind is Call => translate_call(self, terminator(bb).kind.Call.func, terminator(bb).kind.Call.args.0.pointer, terminator(bb).kind.Call.destination, terminator(bb).kind.Call.target, terminator(bb).source_info.span, terminator(bb).kind.Call.unwind, bb)
terminator(bb).kind is Drop & not kind(tyof(terminator(bb).kind.Drop.place).ty) is Dynamic => TerminatorResult{stmts: [], terminator: Call{callee: Constant(FnPointer(fn_name(resolve_drop_in_place(self.tcx, tyof(terminator(bb).kind.Drop.place).ty))), Ptr(FnPtr)), calling_convention: Rust, arguments: [ByValue(AddrOf{target: place(s(terminator(bb).kind.Drop.place)), ptr_ty: Raw{meta_kind: None}})], ret: UNITPLACE, next_block: Some(self.bb_name_map[terminator(bb).kind.Drop.target]), unwind_block: Some(unwind_to(terminator(bb).kind.Drop.unwind))}}
terminator(bb).kind is Drop & kind(tyof(terminator(bb).kind.Drop.place).ty) is Dynamic & type(tyof(terminator(bb).kind.Drop.place).ty) is TraitObject => TerminatorResult{stmts: [], terminator: Call{callee: UnOp{operator: VTableMethodLookup(TraitMethodName(from_internal(0))), operand: UnOp{operator: GetMetadata, operand: AddrOf{target: place(s(terminator(bb).kind.Drop.place)), ptr_ty: Raw{meta_kind: VTablePointer(type(tyof(terminator(bb).kind.Drop.place).ty).TraitObject.0)}}}}, calling_convention: Rust, arguments: [ByValue(UnOp{operator: GetThinPointer, operand: AddrOf{target: place(s(terminator(bb).kind.Drop.place)), ptr_ty: Raw{meta_kind: VTablePointer(type(tyof(terminator(bb).kind.Drop.place).ty).TraitObject.0)}}})], ret: UNITPLACE, next_block: Some(self.bb_name_map[terminator(bb).kind.Drop.target]), unwind_block: Some(unwind_to(terminator(bb).kind.Drop.unwind))}}
terminator(bb).kind is Unreachable => TerminatorResult{stmts: [], terminator: Unreachable}
terminator(bb).kind is Return => TerminatorResult{stmts: [], terminator: Return}
terminator(bb).kind is UnwindResume => TerminatorResult{stmts: [], terminator: ResumeUnwind}
terminator(bb).kind is SwitchInt & type(tyof(terminator(bb).kind.SwitchInt.discr)) is Bool => TerminatorResult{stmts: [], terminator: Switch{value: UnOp{operator: Cast(Transmute(u8)), operand: op(s(terminator(bb).kind.SwitchInt.discr))}, cases: [(bits(each(iter(terminator(bb).kind.SwitchInt.targets)).0, IntType{signed: Unsigned, size: 1}), self.bb_name_map[each(iter(terminator(bb).kind.SwitchInt.targets)).1]) for iter(terminator(bb).kind.SwitchInt.targets)], fallback: self.bb_name_map[otherwise(terminator(bb).kind.SwitchInt.targets)]}}
terminator(bb).kind is SwitchInt & type(tyof(terminator(bb).kind.SwitchInt.discr)) is Int => TerminatorResult{stmts: [], terminator: Switch{value: op(s(terminator(bb).kind.SwitchInt.discr)), cases: [(bits(each(iter(terminator(bb).kind.SwitchInt.targets)).0, type(tyof(terminator(bb).kind.SwitchInt.discr)).Int.0), self.bb_name_map[each(iter(terminator(bb).kind.SwitchInt.targets)).1]) for iter(terminator(bb).kind.SwitchInt.targets)], fallback: self.bb_name_map[otherwise(terminator(bb).kind.SwitchInt.targets)]}}
terminator(bb).kind is Goto => TerminatorResult{stmts: [], terminator: Goto(self.bb_name_map[terminator(bb).kind.Goto.target])}
## mz::FnCtxt::translate_unwind_action(self, unwind, bb)
unwind is Cleanup => self.bb_name_map[unwind.Cleanup.0]
unwind is Terminate & bb.is_cleanup => b0 ; b0 = BasicBlock{statements: [], terminator: Intrinsic{intrinsic: Abort, arguments: [], ret: UNITPLACE, next_block: None}, kind: Terminate}
unwind is Terminate & not bb.is_cleanup => b0 ; b0 = BasicBlock{statements: [], terminator: Intrinsic{intrinsic: Abort, arguments: [], ret: UNITPLACE, next_block: None}, kind: Cleanup}
unwind is Unreachable & bb.is_cleanup => b0 ; b0 = BasicBlock{statements: [], terminator: Unreachable, kind: Terminate}
unwind is Unreachable & not bb.is_cleanup => b0 ; b0 = BasicBlock{statements: [], terminator: Unreachable, kind: Cleanup}
unwind is Continue & not bb.is_cleanup => b0 ; b0 = BasicBlock{statements: [], terminator: ResumeUnwind, kind: Cleanup}
## mz::FnCtxt::translate_panic(self, unwind, bb)
panic_strategy(self.tcx.sess) is ImmediateAbort => Intrinsic{intrinsic: Abort, arguments: [], ret: UNITPLACE, next_block: None}
panic_strategy(self.tcx.sess) is Abort => Intrinsic{intrinsic: Abort, arguments: [], ret: UNITPLACE, next_block: None}
panic_strategy(self.tcx.sess) is Unwind => StartUnwind{unwind_payload: Constant(PointerWithoutProvenance(1), Ptr(Raw{meta_kind: None})), unwind_block: unwind_to(unwind)}
"""


def check(c):
    mz.setup()
    n = book(c, T, mz.STEPS + [mz.F + "translate_call"], show=mz.frag)
    c.floor("translated functions", n, 4)
