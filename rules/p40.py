"""P40: every reachable function is translated once, block by block, and the program starts by calling main."""
import mz, tool
from tool import book

META = dict(rule="Decision table: for the program (worklist of functions, start function), each function (names, locals, arguments, first block, blocks) and each basic block (where it is split, what its parts contain), the result and the state "
                 "after every loop, on every path, are compared with the table.")
# abbreviations of the table, applied in order
TEXT = [("concat(self.bb_name_map, [(each(indices(self.body.basic_blocks)), BbName(from_internal((pos(indices(self.body.basic_blocks), 0) + self.next_bb)))) for enum(indices(self.body.basic_blocks))])", "BBMAP"),
        ("concat(self.local_name_map, [(each(indices(self.body.local_decls)), LocalName(from_internal((pos(indices(self.body.local_decls), 0) + self.next_local)))) for enum(indices(self.body.local_decls))])", "LOCALMAP"),
        ("kind(self.body.local_decls[self.body.spread_arg!].ty).Tuple.0", "SPREAD"), ("F1.local_name_map[r::RETURN_PLACE]", "LocalName(from_internal(0))"), ("LOCALMAP[r::RETURN_PLACE]", "LocalName(from_internal(0))"), ("as_usize(self.body.spread_arg!) == each(new(1, self.body.arg_count))", "ISSPREAD")]
T = r"""
## mz::FnCtxt::translate_bb(self, name, bb)
bb.is_cleanup => () ; after translate_terminator(bb)(F1){.blocks := minsert(after translate_terminator(bb)(F1).blocks, F2, BasicBlock{statements: concat(F3, translate_terminator(F1, bb).stmts), terminator: translate_terminator(F1, bb).terminator, kind: Cleanup})} ; F1 = fold(bb.statements, (self, name, []), each(bb.statements), ({translate_stmt(acc0, each(bb.statements)) is Intrinsic: acc0{.blocks := minsert(acc0.blocks, acc1, BasicBlock{statements: acc2, terminator: Intrinsic{intrinsic: translate_stmt(acc0, each(bb.statements)).Intrinsic.intrinsic, arguments: translate_stmt(acc0, each(bb.statements)).Intrinsic.arguments, ret: translate_stmt(acc0, each(bb.statements)).Intrinsic.destination, next_block: Some(BbName(from_internal(acc0.next_bb)))}, kind: Cleanup})}{.next_bb := (acc0.next_bb + 1)}; !(translate_stmt(acc0, each(bb.statements)) is Intrinsic): acc0}, {translate_stmt(acc0, each(bb.statements)) is Intrinsic: BbName(from_internal(acc0.next_bb)); !(translate_stmt(acc0, each(bb.statements)) is Intrinsic): acc1}, {translate_stmt(acc0, each(bb.statements)) is Intrinsic: []; !(translate_stmt(acc0, each(bb.statements)) is Intrinsic): push(acc2, translate_stmt(acc0, each(bb.statements)).Statement.0)})) ; F2 = fold(bb.statements, (name, self, []), each(bb.statements), ({translate_stmt(acc1, each(bb.statements)) is Intrinsic: BbName(from_internal(acc1.next_bb)); !(translate_stmt(acc1, each(bb.statements)) is Intrinsic): acc0}, {translate_stmt(acc1, each(bb.statements)) is Intrinsic: acc1{.blocks := minsert(acc1.blocks, acc0, BasicBlock{statements: acc2, terminator: Intrinsic{intrinsic: translate_stmt(acc1, each(bb.statements)).Intrinsic.intrinsic, arguments: translate_stmt(acc1, each(bb.statements)).Intrinsic.arguments, ret: translate_stmt(acc1, each(bb.statements)).Intrinsic.destination, next_block: Some(BbName(from_internal(acc1.next_bb)))}, kind: Cleanup})}{.next_bb := (acc1.next_bb + 1)}; !(translate_stmt(acc1, each(bb.statements)) is Intrinsic): acc1}, {translate_stmt(acc1, each(bb.statements)) is Intrinsic: []; !(translate_stmt(acc1, each(bb.statements)) is Intrinsic): push(acc2, translate_stmt(acc1, each(bb.statements)).Statement.0)})) ; F3 = fold(bb.statements, ([], self, name), each(bb.statements), ({translate_stmt(acc1, each(bb.statements)) is Intrinsic: []; !(translate_stmt(acc1, each(bb.statements)) is Intrinsic): push(acc0, translate_stmt(acc1, each(bb.statements)).Statement.0)}, {translate_stmt(acc1, each(bb.statements)) is Intrinsic: acc1{.blocks := minsert(acc1.blocks, acc2, BasicBlock{statements: acc0, terminator: Intrinsic{intrinsic: translate_stmt(acc1, each(bb.statements)).Intrinsic.intrinsic, arguments: translate_stmt(acc1, each(bb.statements)).Intrinsic.arguments, ret: translate_stmt(acc1, each(bb.statements)).Intrinsic.destination, next_block: Some(BbName(from_internal(acc1.next_bb)))}, kind: Cleanup})}{.next_bb := (acc1.next_bb + 1)}; !(translate_stmt(acc1, each(bb.statements)) is Intrinsic): acc1}, {translate_stmt(acc1, each(bb.statements)) is Intrinsic: BbName(from_internal(acc1.next_bb)); !(translate_stmt(acc1, each(bb.statements)) is Intrinsic): acc2}))
not bb.is_cleanup => () ; after translate_terminator(bb)(F1){.blocks := minsert(after translate_terminator(bb)(F1).blocks, F2, BasicBlock{statements: concat(F3, translate_terminator(F1, bb).stmts), terminator: translate_terminator(F1, bb).terminator, kind: Regular})} ; F1 = fold(bb.statements, (self, name, []), each(bb.statements), ({translate_stmt(acc0, each(bb.statements)) is Intrinsic: acc0{.blocks := minsert(acc0.blocks, acc1, BasicBlock{statements: acc2, terminator: Intrinsic{intrinsic: translate_stmt(acc0, each(bb.statements)).Intrinsic.intrinsic, arguments: translate_stmt(acc0, each(bb.statements)).Intrinsic.arguments, ret: translate_stmt(acc0, each(bb.statements)).Intrinsic.destination, next_block: Some(BbName(from_internal(acc0.next_bb)))}, kind: Regular})}{.next_bb := (acc0.next_bb + 1)}; !(translate_stmt(acc0, each(bb.statements)) is Intrinsic): acc0}, {translate_stmt(acc0, each(bb.statements)) is Intrinsic: BbName(from_internal(acc0.next_bb)); !(translate_stmt(acc0, each(bb.statements)) is Intrinsic): acc1}, {translate_stmt(acc0, each(bb.statements)) is Intrinsic: []; !(translate_stmt(acc0, each(bb.statements)) is Intrinsic): push(acc2, translate_stmt(acc0, each(bb.statements)).Statement.0)})) ; F2 = fold(bb.statements, (name, self, []), each(bb.statements), ({translate_stmt(acc1, each(bb.statements)) is Intrinsic: BbName(from_internal(acc1.next_bb)); !(translate_stmt(acc1, each(bb.statements)) is Intrinsic): acc0}, {translate_stmt(acc1, each(bb.statements)) is Intrinsic: acc1{.blocks := minsert(acc1.blocks, acc0, BasicBlock{statements: acc2, terminator: Intrinsic{intrinsic: translate_stmt(acc1, each(bb.statements)).Intrinsic.intrinsic, arguments: translate_stmt(acc1, each(bb.statements)).Intrinsic.arguments, ret: translate_stmt(acc1, each(bb.statements)).Intrinsic.destination, next_block: Some(BbName(from_internal(acc1.next_bb)))}, kind: Regular})}{.next_bb := (acc1.next_bb + 1)}; !(translate_stmt(acc1, each(bb.statements)) is Intrinsic): acc1}, {translate_stmt(acc1, each(bb.statements)) is Intrinsic: []; !(translate_stmt(acc1, each(bb.statements)) is Intrinsic): push(acc2, translate_stmt(acc1, each(bb.statements)).Statement.0)})) ; F3 = fold(bb.statements, ([], self, name), each(bb.statements), ({translate_stmt(acc1, each(bb.statements)) is Intrinsic: []; !(translate_stmt(acc1, each(bb.statements)) is Intrinsic): push(acc0, translate_stmt(acc1, each(bb.statements)).Statement.0)}, {translate_stmt(acc1, each(bb.statements)) is Intrinsic: acc1{.blocks := minsert(acc1.blocks, acc2, BasicBlock{statements: acc0, terminator: Intrinsic{intrinsic: translate_stmt(acc1, each(bb.statements)).Intrinsic.intrinsic, arguments: translate_stmt(acc1, each(bb.statements)).Intrinsic.arguments, ret: translate_stmt(acc1, each(bb.statements)).Intrinsic.destination, next_block: Some(BbName(from_internal(acc1.next_bb)))}, kind: Regular})}{.next_bb := (acc1.next_bb + 1)}; !(translate_stmt(acc1, each(bb.statements)) is Intrinsic): acc1}, {translate_stmt(acc1, each(bb.statements)) is Intrinsic: BbName(from_internal(acc1.next_bb)); !(translate_stmt(acc1, each(bb.statements)) is Intrinsic): acc2}))
## mz::FnCtxt::translate(self)
self.body.spread_arg is None => Function{locals: F1.locals, args: [LocalName(from_internal(each(new(1, self.body.arg_count)))) for new(1, self.body.arg_count)], ret: LocalName(from_internal(0)), calling_convention: cc(F1.abi.conv), blocks: F1.blocks, start: BbName(from_internal((len(indices(self.body.basic_blocks)) + self.next_bb)))} ; F1 = fold(BBMAP, (self{.bb_name_map := BBMAP}{.blocks := minsert(self.blocks, BbName(from_internal((len(indices(self.body.basic_blocks)) + self.next_bb))), BasicBlock{statements: filter_map(iter(always_storage_live_locals(self.body)), {(-1*get_internal(LOCALMAP[each(iter(always_storage_live_locals(self.body)))].0) + self.body.arg_count) >= 0: None; !((-1*get_internal(LOCALMAP[each(iter(always_storage_live_locals(self.body)))].0) + self.body.arg_count) >= 0): Some(StorageLive(LOCALMAP[each(iter(always_storage_live_locals(self.body)))]))}), terminator: Goto(BBMAP[r::START_BLOCK]), kind: Regular})}{.local_name_map := LOCALMAP}{.locals := concat(self.locals, [(each(LOCALMAP).1, type(self.body.local_decls[each(LOCALMAP).0].ty)) for LOCALMAP])}{.next_bb := (len(indices(self.body.basic_blocks)) + self.next_bb + 1)}{.next_local := (len(indices(self.body.local_decls)) + self.next_local)}), each(BBMAP), (after translate_bb(each(BBMAP).1, acc0.body.basic_blocks[each(BBMAP).0])(acc0)))
self.body.spread_arg is Some => Function{locals: F1.locals, args: F2, ret: LocalName(from_internal(0)), calling_convention: cc(F1.abi.conv), blocks: F1.blocks, start: BbName(from_internal((len(indices(self.body.basic_blocks)) + self.next_bb)))} ; F1 = fold(BBMAP, (self{.bb_name_map := BBMAP}{.blocks := minsert(self.blocks, BbName(from_internal((len(indices(self.body.basic_blocks)) + self.next_bb))), BasicBlock{statements: concat(fold(new(1, self.body.arg_count), ([], (len(indices(self.body.local_decls)) + self.next_local)), each(new(1, self.body.arg_count)), ({ISSPREAD: concat(push(acc0, StorageLive(LOCALMAP[self.body.spread_arg!])), [Assign{destination: Field{root: Local(LOCALMAP[self.body.spread_arg!]), field: pos(SPREAD, 0)}, source: Load{source: Local(LocalName(from_internal((acc1 + pos(SPREAD, 0)))))}} for enum(SPREAD)]); !(ISSPREAD): acc0}, {ISSPREAD: (acc1 + len(SPREAD)); !(ISSPREAD): acc1})), filter_map(iter(always_storage_live_locals(self.body)), {(-1*get_internal(LOCALMAP[each(iter(always_storage_live_locals(self.body)))].0) + self.body.arg_count) >= 0: None; !((-1*get_internal(LOCALMAP[each(iter(always_storage_live_locals(self.body)))].0) + self.body.arg_count) >= 0): Some(StorageLive(LOCALMAP[each(iter(always_storage_live_locals(self.body)))]))})), terminator: Goto(BBMAP[r::START_BLOCK]), kind: Regular})}{.local_name_map := LOCALMAP}{.locals := fold(new(1, self.body.arg_count), (concat(self.locals, [(each(LOCALMAP).1, type(self.body.local_decls[each(LOCALMAP).0].ty)) for LOCALMAP]), (len(indices(self.body.local_decls)) + self.next_local)), each(new(1, self.body.arg_count)), ({ISSPREAD: concat(acc0, [(LocalName(from_internal((acc1 + pos(SPREAD, 0)))), type(each(SPREAD))) for enum(SPREAD)]); !(ISSPREAD): acc0}, {ISSPREAD: (acc1 + len(SPREAD)); !(ISSPREAD): acc1}))}{.next_bb := (len(indices(self.body.basic_blocks)) + self.next_bb + 1)}{.next_local := fold(new(1, self.body.arg_count), ((len(indices(self.body.local_decls)) + self.next_local)), each(new(1, self.body.arg_count)), ({ISSPREAD: (acc0 + len(SPREAD)); !(ISSPREAD): acc0}))}), each(BBMAP), (after translate_bb(each(BBMAP).1, acc0.body.basic_blocks[each(BBMAP).0])(acc0))) ; F2 = fold(new(1, self.body.arg_count), ([], (len(indices(self.body.local_decls)) + self.next_local)), each(new(1, self.body.arg_count)), ({ISSPREAD: concat(acc0, [LocalName(from_internal((acc1 + pos(SPREAD, 0)))) for enum(SPREAD)]); !(ISSPREAD): push(acc0, LocalName(from_internal(each(new(1, self.body.arg_count)))))}, {ISSPREAD: (acc1 + len(SPREAD)); !(ISSPREAD): acc1}))
## mz::FnCtxt::new(instance, cx)
always => FnCtxt{body: instantiate_and_normalize_erasing_regions(cx.tcx, instance.args, fully_monomorphized(), bind(instance_mir(cx.tcx, instance.def))), abi: fn_abi_of_instance(cx.tcx, as_query_input(fully_monomorphized(), (instance, empty(rustc_middle::ty::Ty<'_>))))!, locals_smir: locals(s(instantiate_and_normalize_erasing_regions(cx.tcx, instance.args, fully_monomorphized(), bind(instance_mir(cx.tcx, instance.def))))), cx: mref((arg, cx), ()), local_name_map: default HashMap, bb_name_map: default HashMap, next_bb: 0, next_local: 0, locals: [], blocks: []}
## mz::Ctxt::translate(self)
always => Program{functions: minsert(W.functions, FnName(from_internal(len(W.fn_name_map))), Function{locals: [(LocalName(from_internal(0)), UNIT)], args: [], ret: LocalName(from_internal(0)), calling_convention: C, blocks: [(BbName(from_internal(0)), BasicBlock{statements: [], terminator: Call{callee: Constant(FnPointer(FnName(from_internal(0))), Ptr(FnPtr)), calling_convention: Rust, arguments: [], ret: UNITPLACE, next_block: Some(BbName(from_internal(1))), unwind_block: Some(BbName(from_internal(2)))}, kind: Regular}), (BbName(from_internal(1)), BasicBlock{statements: [], terminator: Intrinsic{intrinsic: Exit, arguments: [], ret: UNITPLACE, next_block: None}, kind: Regular}), (BbName(from_internal(2)), BasicBlock{statements: [], terminator: Intrinsic{intrinsic: Abort, arguments: [], ret: UNITPLACE, next_block: None}, kind: Catch})], start: BbName(from_internal(0))}), start: FnName(from_internal(len(W.fn_name_map))), globals: W.globals, traits: W.traits, vtables: W.vtables} ; W from self{.fn_name_map := minsert(self.fn_name_map, mono(self.tcx, entry_fn(self.tcx, ())!.0), FnName(from_internal(0)))} ; each time W := W{.functions := minsert(W.functions, each(W.fn_name_map).1, translate(new(each(W.fn_name_map).0, W)))} if not get(W.functions, each(W.fn_name_map).1) is Some ; until for all W.fn_name_map: get(W.functions, each(W.fn_name_map).1) is Some
## mz::Ctxt::get_fn_name(self, key)
not get(self.fn_name_map, key) is Some => FnName(from_internal(len(self.fn_name_map))) ; .fn_name_map := minsert(self.fn_name_map, key, FnName(from_internal(len(self.fn_name_map))))
get(self.fn_name_map, key) is Some => self.fn_name_map[key]
## mz::Ctxt::get_fn_name_smir(self, key)
always => fn_name(i(key))
"""
NEW = [mz.F + x for x in ("translate_bb", "translate", "new", "translate_stmt", "translate_terminator")]


def early(v):
    """a block inserted after the loop that adds the others, as if it had been inserted before: its name is its own, and the loop does not see it"""
    from terms import mk, is_adt, subst, update, field
    d = dict(v.a[2]) if v.k == "adt" and v.a[1] == "Function" else {}
    b, own = d.get("blocks"), []
    while b is not None and b.k == "minsert": own.append(b.a[1:]); b = b.a[0]
    if not own or b.k != "f" or b.a[0].k != "fold" or len(b.a[0].a[1]) != 1: return v
    f = b.a[0]
    base = f.a[1][0]
    blocks = field(base, "blocks")
    for k, x in own[::-1]: blocks = mk("minsert", blocks, k, x)
    new = mk("fold", f.a[0], (update(base, ("f", "blocks"), blocks),), *f.a[2:])
    return subst(subst(v, {d["blocks"]: b}), {f: new})


def built(o):
    import copy
    from terms import T
    o = copy.copy(o)
    if isinstance(o.val, T): o.val = early(o.val)
    return tool.cse(tool.short(mz.frag(o)))


def check(c):
    mz.setup()
    tool.TEXT += TEXT
    tool.SHOWN |= {"translate_bb", "translate_terminator"}
    show = lambda o: tool.cse(tool.short(tool.whiles(None)(o))) if "Program{" in tool.cshow(o.val) else built(o)
    n = book(c, T, mz.STEPS + NEW, show=show)
    c.floor("translated functions", n, 6)
    for o in c.paths(mz.C + "translate", opaque=mz.STEPS + NEW, prog=c.prog(*tool.ALL), args=None):
        if o.tag == "panic": continue
        s = tool.short(tool.cshow(o.val))
        ret = s.split("callee: Constant(FnPointer", 1)[-1].split("ret: ", 1)[-1].split(", next_block", 1)[0]
        c.must(ret != "UNITPLACE" or any("output(" in l for l in tool.literals(o)), "translate/entry-return-type", mz.C + "translate",
               "the start function calls main with a return place of type (), whatever main returns", o)
