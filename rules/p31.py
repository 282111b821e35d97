"""P31: the program, function, vtable and trait builders assemble exactly what was declared, under fresh names, and refuse malformed use."""
from terms import *
from tool import tables, maps
from mu import U, UT, shown, staged

META = dict(rule="Decision table: for every builder method, the returned value and the exact final builder state (block finished, successor opened, statement appended, fresh counters advanced) on every path; misuse must panic on every path. "
                 "END<t>: the current block is stored with terminator t; NEXT<t|n>: likewise, and block n becomes current with the same kind; PUSH<s>: s is appended; $N, $L: the next fresh block and local name.")
T = r"""
FunctionBuilder::abort(self) => () ; END<Intrinsic{intrinsic: Abort, arguments: [], ret: $U, next_block: None}>
FunctionBuilder::allocate(self, size, align, ret_place) => () ; NEXT<Intrinsic{intrinsic: Allocate, arguments: [size, align], ret: ret_place, next_block: Some($N)}|$N +fresh>
FunctionBuilder::assign(self, destination, source) => () ; PUSH<Assign{destination: destination, source: source}>
FunctionBuilder::assume(self, val) => () ; NEXT<Intrinsic{intrinsic: Assume, arguments: [val], ret: $U, next_block: Some($N)}|$N +fresh>
FunctionBuilder::atomic_load(self, dest, ptr) => () ; NEXT<Intrinsic{intrinsic: AtomicLoad, arguments: [ptr], ret: dest, next_block: Some($N)}|$N +fresh>
FunctionBuilder::atomic_store(self, ptr, src) => () ; NEXT<Intrinsic{intrinsic: AtomicStore, arguments: [ptr, src], ret: $U, next_block: Some($N)}|$N +fresh>
FunctionBuilder::call(self, ret, f, args, unwind_block) => () ; NEXT<Call{callee: f, calling_convention: Rust, arguments: args, ret: ret, next_block: Some($N), unwind_block: Some(unwind_block)}|$N +fresh>
FunctionBuilder::call_ignoreret(self, f, args) => () ; NEXT<Call{callee: f, calling_convention: Rust, arguments: args, ret: $U, next_block: Some($N), unwind_block: None}|$N +fresh>
FunctionBuilder::call_noret(self, ret, f, args) => () ; END<Call{callee: f, calling_convention: Rust, arguments: args, ret: ret, next_block: None, unwind_block: None}>
FunctionBuilder::call_nounwind(self, ret, f, args) => () ; NEXT<Call{callee: f, calling_convention: Rust, arguments: args, ret: ret, next_block: Some($N), unwind_block: None}|$N +fresh>
FunctionBuilder::call_with_conv(self, ret, f, args, conv, unwind_block) => () ; NEXT<Call{callee: f, calling_convention: conv, arguments: args, ret: ret, next_block: Some($N), unwind_block: Some(unwind_block)}|$N +fresh>
FunctionBuilder::compare_exchange(self, dest, ptr, current, next_val) => () ; NEXT<Intrinsic{intrinsic: AtomicCompareExchange, arguments: [ptr, current, next_val], ret: dest, next_block: Some($N)}|$N +fresh>
FunctionBuilder::deallocate(self, ptr, size, align) => () ; NEXT<Intrinsic{intrinsic: Deallocate, arguments: [ptr, size, align], ret: $U, next_block: Some($N)}|$N +fresh>
FunctionBuilder::declare_arg(self) => Local($L) ; self{.args := push(self.args, $L)}{.locals := minsert(self.locals, $L, get_type(T))}{.next_local := (self.next_local + 1)}
FunctionBuilder::declare_arg_with_ty(self, ty) => Local($L) ; self{.args := push(self.args, $L)}{.locals := minsert(self.locals, $L, ty)}{.next_local := (self.next_local + 1)}
FunctionBuilder::declare_block(self) => $N ; self{.next_block := (self.next_block + 1)}
FunctionBuilder::declare_local(self) => Local($L) ; self{.locals := minsert(self.locals, $L, get_type(T))}{.next_local := (self.next_local + 1)}
FunctionBuilder::declare_local_with_ty(self, t) => Local($L) ; self{.locals := minsert(self.locals, $L, t)}{.next_local := (self.next_local + 1)}
FunctionBuilder::declare_ret(self) => Local($L) ; self{.locals := minsert(self.locals, $L, get_type(T))}{.next_local := (self.next_local + 1)}{.ret := Some($L)}
FunctionBuilder::eprint(self, arg) => () ; NEXT<Intrinsic{intrinsic: PrintStderr, arguments: [arg], ret: $U, next_block: Some($N)}|$N +fresh>
FunctionBuilder::exit(self) => () ; END<Intrinsic{intrinsic: Exit, arguments: [], ret: $U, next_block: None}>
FunctionBuilder::expose_provenance(self, dest, ptr) => () ; NEXT<Intrinsic{intrinsic: PointerExposeProvenance, arguments: [ptr], ret: dest, next_block: Some($N)}|$N +fresh>
FunctionBuilder::finish_block(self, terminator) => () ; END<terminator>
FunctionBuilder::get_unwind_payload(self, ret) => () ; NEXT<Intrinsic{intrinsic: GetUnwindPayload, arguments: [], ret: ret, next_block: Some($N)}|$N +fresh>
FunctionBuilder::goto(self, dest) => () ; END<Goto(dest)>
FunctionBuilder::join(self, thread_id) => () ; NEXT<Intrinsic{intrinsic: Join, arguments: [thread_id], ret: $U, next_block: Some($N)}|$N +fresh>
FunctionBuilder::lock_acquire(self, lock_id) => () ; NEXT<Intrinsic{intrinsic: Lock(Acquire), arguments: [lock_id], ret: $U, next_block: Some($N)}|$N +fresh>
FunctionBuilder::lock_create(self, ret) => () ; NEXT<Intrinsic{intrinsic: Lock(Create), arguments: [], ret: ret, next_block: Some($N)}|$N +fresh>
FunctionBuilder::lock_release(self, lock_id) => () ; NEXT<Intrinsic{intrinsic: Lock(Release), arguments: [lock_id], ret: $U, next_block: Some($N)}|$N +fresh>
FunctionBuilder::place_mention(self, place) => () ; PUSH<PlaceMention(place)>
FunctionBuilder::print(self, arg) => () ; NEXT<Intrinsic{intrinsic: PrintStdout, arguments: [arg], ret: $U, next_block: Some($N)}|$N +fresh>
FunctionBuilder::raw_eq(self, dest, left_ptr, right_ptr) => () ; NEXT<Intrinsic{intrinsic: RawEq, arguments: [left_ptr, right_ptr], ret: dest, next_block: Some($N)}|$N +fresh>
FunctionBuilder::resume_unwind(self) => () ; END<ResumeUnwind>
FunctionBuilder::return_(self) => () ; END<Return>
FunctionBuilder::set_discriminant(self, destination, value) => () ; PUSH<SetDiscriminant{destination: destination, value: value}>
FunctionBuilder::spawn(self, f, data_ptr, ret) => () ; NEXT<Intrinsic{intrinsic: Spawn, arguments: [Constant(FnPointer(f), Ptr(FnPtr)), data_ptr], ret: ret, next_block: Some($N)}|$N +fresh>
FunctionBuilder::start_unwind(self, unwind_payload, cleanup) => () ; END<StartUnwind{unwind_payload: unwind_payload, unwind_block: cleanup}>
FunctionBuilder::stop_unwind(self, next_block) => () ; END<StopUnwind(next_block)>
FunctionBuilder::storage_dead(self, local) => () ; PUSH<StorageDead(local.Local.0)>
FunctionBuilder::storage_live(self, local) => () ; PUSH<StorageLive(local.Local.0)>
FunctionBuilder::unreachable(self) => () ; END<Unreachable>
FunctionBuilder::validate(self, place, fn_entry) => () ; PUSH<Validate{place: place, fn_entry: fn_entry}>
FunctionBuilder::with_exposed_provenance(self, dest, addr) => () ; NEXT<Intrinsic{intrinsic: PointerWithExposedProvenance, arguments: [addr], ret: dest, next_block: Some($N)}|$N +fresh>
FunctionBuilder::set_cur_block(self, name, kind) => () ; self{.cur_block := Some(CurBlock{statements: [], name: name, kind: kind})}
FunctionBuilder::name(self) => self.name
FunctionBuilder::set_conv(self, conv) => () ; self{.conv := conv}
ProgramBuilder::new() => ProgramBuilder{functions: [], globals: [], vtables: [], traits: [], next_fn: 0, next_global: 0, next_vtable: 0, next_trait: 0}
ProgramBuilder::finish_program(self, start_function) => Program{functions: minsert(self.functions, start_function, get(self.functions, start_function).Some.0{.calling_convention := C}), start: start_function, globals: self.globals, traits: self.traits, vtables: self.vtables} ; self{.functions := minsert(self.functions, start_function, get(self.functions, start_function).Some.0{.calling_convention := C})}
ProgramBuilder::declare_function(self) => FunctionBuilder{name: FnName(from_internal(self.next_fn)), locals: [], args: [], blocks: [], start: BbName(from_internal(0)), ret: None, conv: Rust, cur_block: Some(CurBlock{statements: [], name: BbName(from_internal(0)), kind: Regular}), next_block: 1, next_local: 0} ; self{.next_fn := (self.next_fn + 1)}
ProgramBuilder::finish_function(self, f) | f.ret is Some => f.name ; self{.functions := minsert(self.functions, f.name, Function{locals: f.locals, args: f.args, ret: f.ret.Some.0, calling_convention: f.conv, blocks: f.blocks, start: f.start})}
ProgramBuilder::finish_function(self, f) | f.ret is None => f.name ; self{.functions := minsert(self.functions, f.name, Function{locals: minsert(f.locals, LocalName(from_internal(f.next_local)), $unit), args: f.args, ret: LocalName(from_internal(f.next_local)), calling_convention: f.conv, blocks: f.blocks, start: f.start})}
ProgramBuilder::declare_vtable(self, trait_name, size, align, cells) => VTableBuilder{trait_name: trait_name, name: VTableName(from_internal(self.next_vtable)), size: size, align: align, cells: cells, methods: []} ; self{.next_vtable := (self.next_vtable + 1)}
ProgramBuilder::finish_vtable(self, v) => v.name ; self{.vtables := minsert(self.vtables, v.name, v)}
ProgramBuilder::declare_trait(self) => TraitBuilder{name: TraitName(from_internal(self.next_trait)), next_method: 0, method_names: []} ; self{.next_trait := (self.next_trait + 1)}
ProgramBuilder::finish_trait(self, t) => t.name ; self{.traits := minsert(self.traits, t.name, t.method_names)}
ProgramBuilder::declare_global_zero_initialized(self) => Deref{operand: Constant(GlobalPointer(Relocation{name: GlobalName(from_internal(self.next_global)), offset: 0}), Ptr(Raw{meta_kind: None})), ty: get_type(T)} ; self{.globals := minsert(self.globals, GlobalName(from_internal(self.next_global)), Global{bytes: repeat(Some(0), get_size(T)), relocations: [], align: get_align(T)})}{.next_global := (self.next_global + 1)}
VTableBuilder::name(self) => self.name
VTableBuilder::add_method(self, index, func) => () ; self{.methods := minsert(self.methods, index, func)}
TraitBuilder::name(self) => self.name
TraitBuilder::declare_method(self) => TraitMethodName(from_internal(self.next_method)) ; self{.method_names := sinsert(self.method_names, TraitMethodName(from_internal(self.next_method)))}{.next_method := (self.next_method + 1)}
function(ret, num_args, locals, bbs) | ret is No => Function{locals: minsert([(LocalName(from_internal(pos(locals, 0))), each(locals)) for enum(locals)], LocalName(from_internal(len(locals))), $unit), args: [LocalName(from_internal(each(Range{start: 0, end: num_args}))) for Range{start: 0, end: num_args}], ret: LocalName(from_internal(len(locals))), calling_convention: C, blocks: [(BbName(from_internal(pos(bbs, 0))), each(bbs)) for enum(bbs)], start: BbName(from_internal(0))}
function(ret, num_args, locals, bbs) | ret is Yes => Function{locals: [(LocalName(from_internal(pos(locals, 0))), each(locals)) for enum(locals)], args: [LocalName(from_internal((each(Range{start: 0, end: num_args}) + 1))) for Range{start: 0, end: num_args}], ret: LocalName(from_internal(0)), calling_convention: C, blocks: [(BbName(from_internal(pos(bbs, 0))), each(bbs)) for enum(bbs)], start: BbName(from_internal(0))}
block(statements, terminator, kind) => BasicBlock{statements: statements, terminator: terminator, kind: kind}
program_with_globals(fns, globals) => Program{functions: [(FnName(from_internal(pos(fns, 0))), each(fns)) for enum(fns)], start: FnName(from_internal(0)), globals: [(GlobalName(from_internal(pos(globals, 0))), each(globals)) for enum(globals)], traits: [], vtables: []}
program(fns) => Program{functions: [(FnName(from_internal(pos(fns, 0))), each(fns)) for enum(fns)], start: FnName(from_internal(0)), globals: [], traits: [], vtables: []}
small_program(locals, statements) => Program{functions: [(FnName(from_internal(0)), Function{locals: minsert([(LocalName(from_internal(pos(locals, 0))), each(locals)) for enum(locals)], LocalName(from_internal(len(locals))), $unit), args: [], ret: LocalName(from_internal(len(locals))), calling_convention: C, blocks: [(BbName(from_internal(0)), BasicBlock{statements: statements, terminator: Intrinsic{intrinsic: Exit, arguments: [], ret: $U, next_block: None}, kind: Regular})], start: BbName(from_internal(0))})], start: FnName(from_internal(0)), globals: [], traits: [], vtables: []}
align(bytes) => bytes
size(bytes) => bytes
offset(bytes) => bytes
FunctionBuilder::atomic_fetch(self, binop, dest, ptr, other) | binop is Add => () ; NEXT<Intrinsic{intrinsic: AtomicFetchAndOp(Add), arguments: [ptr, other], ret: dest, next_block: Some($N)}|$N +fresh>
FunctionBuilder::atomic_fetch(self, binop, dest, ptr, other) | binop is Sub => () ; NEXT<Intrinsic{intrinsic: AtomicFetchAndOp(Sub), arguments: [ptr, other], ret: dest, next_block: Some($N)}|$N +fresh>
FunctionBuilder::atomic_fetch(self, binop, dest, ptr, other) | binop is Mul => !
FunctionBuilder::atomic_fetch(self, binop, dest, ptr, other) | binop is BitXor => !
FunctionBuilder::atomic_fetch(self, binop, dest, ptr, other) | binop is Shl => !
FunctionBuilder::atomic_fetch(self, binop, dest, ptr, other) | binop is Div => !
ProgramBuilder::declare_vtable_for_frozen_ty(self, trait_name, ty) | call('Type::layout', ty) is Sized => VTableBuilder{trait_name: trait_name, name: VTableName(from_internal(self.next_vtable)), size: layout(ty).Sized.0, align: layout(ty).Sized.1, cells: [], methods: []} ; self{.next_vtable := (self.next_vtable + 1)}
FunctionBuilder::goto(self, dest) | self.cur_block is None => !
FunctionBuilder::goto(self, dest) | get(self.blocks, self.cur_block.Some._0.name) is Some => !
FunctionBuilder::return_(self) | self.cur_block is None => !
FunctionBuilder::assign(self, destination, source) | self.cur_block is None => !
FunctionBuilder::storage_live(self, local) | local is Deref => !
FunctionBuilder::storage_dead(self, local) | local is Field => !
FunctionBuilder::set_cur_block(self, name, kind) | self.cur_block is Some => !
FunctionBuilder::set_cur_block(self, name, kind) | get(self.blocks, name) is Some => !
FunctionBuilder::declare_ret(self) | self.ret is Some => !
ProgramBuilder::finish_function(self, f) | f.cur_block is Some => !
ProgramBuilder::finish_program(self, start_function) | get(self.functions, start_function) is None => !
"""

# structured control flow: what each branch closure is run on, and where control continues.  S<i>: the builder as the i-th closure left it.
B = lambda i, s="self": "$N" if i == 0 and s == "self" else "BbName(from_internal(%s))" % ("(%s.next_block + %d)" % (s, i) if i else s + ".next_block")
CUR = lambda b: "{.cur_block := Some(CurBlock{statements: [], name: %s, kind: $C.kind})}" % b
BB = lambda s, t: "%s.cur_block.Some.0.name, BasicBlock{statements: %s.cur_block.Some.0.statements, terminator: %s, kind: %s.cur_block.Some.0.kind}" % (s, s, t, s)
BC = lambda t: "$C.name, BasicBlock{statements: $C.statements, terminator: %s, kind: $C.kind}" % t
BOOL = "UnOp{operator: Cast(Transmute($u8)), operand: condition}"


def switched(value, keys, runs):
    """every outcome of a switch over `keys` whose branches run the closures `runs` (the last is the fallback), per set of branches left open"""
    n, res = len(keys), []
    cases = "[%s]" % ", ".join("(%s, %s)" % (k, B(i)) for i, k in enumerate(keys))
    for opened in range(2 ** (n + 1)):
        after, steps, st = None, [], "self{.blocks := minsert(self.blocks, %s)}%s{.next_block := (self.next_block + %d)}" % (
            BC("Switch{value: %s, cases: %s, fallback: %s}" % (value, cases, B(n))), CUR(B(0)), n + 1)
        for i, f in enumerate(runs):
            steps.append("%s on %s" % (f, st))
            s, fresh = "S%d" % (i + 1), ""
            st = s
            if opened >> i & 1:
                if after is None: after, fresh = B(0, s), "{.next_block := (%s.next_block + 1)}" % s
                st = "%s{.blocks := minsert(%s.blocks, %s)}" % (s, s, BB(s, "Goto(%s)" % after))
            nxt = B(i + 1) if i < n else after
            st += (CUR(nxt) if nxt else "") + fresh
        res.append(" ; ".join(["S%d %s" % (i + 1, "open" if opened >> i & 1 else "finished") for i in range(n + 1)] + steps + ["()", st]))
    return " OR ".join(res)


def looped():
    blk = "minsert(minsert(%s, %s, BasicBlock{statements: [], terminator: %s, kind: $C.kind}), %s)"
    head = "body on self{.blocks := %s}%s{.next_block := (self.next_block + 3)}" % (
        blk % ("self.blocks", "$N", "Switch{value: %s, cases: [(1, %s)], fallback: %s}" % (BOOL, B(1), B(2)), BC("Goto($N)")), CUR(B(1)))
    tail = "S1{.blocks := %%s}%s{.next_block := (S1.next_block + 1)}" % CUR(B(0, "S1"))
    exit_ = (B(2), "Goto(%s)" % B(0, "S1"))
    return " OR ".join(["S1 finished ; %s ; () ; %s" % (head, tail % ("minsert(S1.blocks, %s, BasicBlock{statements: [], terminator: %s, kind: $C.kind})" % exit_)),
                        "S1 open ; %s ; () ; %s" % (head, tail % (blk % (("S1.blocks",) + exit_ + (BB("S1", "Goto($N)"),))))])


def control(c):
    at = lambda *xs: {i + 1: sym(x) if isinstance(x, str) else x for i, x in enumerate(xs) if x != "self"}
    two = mk("array", (tup(sym("k1"), sym("b1")), tup(sym("k2"), sym("b2"))))
    for name, label, args, want in [
            ("if_", "always", at("self", "condition", "then_branch", "else_branch"), switched(BOOL, ["1"], ["then_branch", "else_branch"])),
            ("while_", "always", at("self", "condition", "body"), looped()),
            ("switch_int", "two cases", at("self", "value", two, "fallback"), switched("value", ["k1", "k2"], ["b1", "b2", "fallback"]))]:
        maps(c, name, "mu::FunctionBuilder::" + name, [(label, None, want)], args=args, show=staged, closed=False)


    for name, kind in (("cleanup_block", "Cleanup"), ("terminating_block", "Terminate"), ("catch_block", "Catch")):      # the blocks built inside must be finished; the outer block is current again
        maps(c, name, "mu::FunctionBuilder::" + name, [("always", None, "S1 finished ; body on self{.cur_block := Some(CurBlock{statements: [], name: $N, kind: %s})}{.next_block := (self.next_block + 1)} ; $N ; S1{.cur_block := self.cur_block}" % kind)],
             args=at("self", "body"), show=staged, closed=False)


def check(c):
    ROWS, REF = T.strip().splitlines(), []
    n = tables(c, "\n".join(l for l in ROWS if not l.endswith("=> !")), prefix="mu::", show=shown, closed=False, opaque=["Type::layout"])
    tables(c, "\n".join(l for l in ROWS if l.endswith("=> !")), prefix="mu::", closed=False)
    control(c)
    c.floor("builder methods", n, 60)
