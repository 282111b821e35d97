"""Rules over the specification itself (minirust-rs): one step at a time, the other steps by name."""
import terms, tool
from terms import *
from tool import cshow, reduce
from engine import TERM_ENUM

# the steps the specification is made of: everything else (a helper pulled out of one of them, say) is read as part of its caller
STEPS = """
Access::races Allocation::overlaps ArgumentExpr::check_wf BasicMemory::allocate BasicMemory::check_ptr BasicMemory::deallocate BasicMemory::leak_check
BasicMemory::load BasicMemory::new BasicMemory::store ConcurrentMemory::allocate ConcurrentMemory::check_data_races ConcurrentMemory::deallocate
ConcurrentMemory::deinit ConcurrentMemory::dereferenceable ConcurrentMemory::end_call ConcurrentMemory::leak_check ConcurrentMemory::load
ConcurrentMemory::new ConcurrentMemory::reset_accesses ConcurrentMemory::retag_ptr ConcurrentMemory::signed_dereferenceable ConcurrentMemory::store
Constant::check_wf Discriminator::check_wf Function::check_next_block Function::check_unwind_block Function::check_wf IntPtrCast::expose
IntPtrCast::int2ptr IntPtrCast::new IntType::align IntType::bring_in_bounds IntType::can_represent IntType::check_wf IntType::with_overflow
LayoutStrategy::check_aligned LayoutStrategy::check_wf LayoutStrategy::compute_size_and_align LayoutStrategy::meta_kind Machine::check_ptr
Machine::check_ptr_metadata Machine::check_value Machine::compare_ptr Machine::compute_align Machine::compute_size Machine::create_frame
Machine::eval_argument Machine::eval_bin_op Machine::eval_call Machine::eval_cast_op Machine::eval_constant Machine::eval_count_ones
Machine::eval_int_bin_op Machine::eval_int_un_op Machine::eval_intrinsic Machine::eval_place Machine::eval_print Machine::eval_rel_op
Machine::eval_statement Machine::eval_terminator Machine::eval_un_op Machine::eval_value Machine::exit Machine::fn_from_ptr Machine::join
Machine::jump_to_block Machine::load_raw_data Machine::lock_acquire Machine::lock_create Machine::lock_release Machine::new Machine::new_thread
Machine::place_load Machine::place_store Machine::prepare_for_inplace_passing Machine::ptr_offset_inbounds Machine::ptr_offset_wrapping
Machine::reset_data_race_tracking Machine::retag_val Machine::spawn Machine::step Machine::terminate_active_thread Machine::transmute
Machine::typed_load Machine::typed_store Machine::vtable_from_ptr Memory::end_call Memory::retag_ptr Memory::signed_dereferenceable Node::access
Node::access_node Node::add_node Node::contains_strong_protector_preventing_deallocation Node::release_protector Node::transition
Permission::init_access Permission::prevents_deallocation Permission::transition PermissionProt::foreign_read PermissionProt::foreign_write
PermissionProt::init_access PermissionProt::local_read PermissionProt::local_write PermissionProt::prevents_deallocation PermissionProt::transition
PermissionProt::unprotect PermissionUnprot::foreign_read PermissionUnprot::foreign_write PermissionUnprot::init_access PermissionUnprot::local_read
PermissionUnprot::local_write PermissionUnprot::prevents_deallocation PermissionUnprot::transition PlaceExpr::check_wf PointeeInfo::check_wf
PointerMetaKind::decode_value PointerMetaKind::encode_as_value Program::check_wf PtrType::as_wide_pair PtrType::check_wf PtrType::meta_kind
PtrType::safe_pointee ReborrowSettings::new Relocation::check_wf StackFrame::jump_to_block StackFrame::storage_dead StackFrame::storage_live
Statement::check_wf Terminator::check_wf ThinPointer::wrapping_offset TreeBorrowsFrameExtra::new TreeBorrowsMemory::reborrow
TreeBorrowsMemory::release_protector TupleHeadLayout::capped_tail_align TupleHeadLayout::check_wf TupleHeadLayout::full_size_and_align
TupleHeadLayout::head_size_and_align TupleHeadLayout::tail_offset Type::check_wf Type::decode Type::encode Type::layout Type::meta_kind
UnsafeCellStrategy::check_cells UnsafeCellStrategy::check_wf UnsafeCellStrategy::freeze_mask ValueExpr::check_wf cells_to_freeze_mask
check_abi_compatibility decode_discriminant decode_ptr encode_discriminant encode_ptr unit_ty unit_type
""".split()


def setup():
    tool.LAMBDAS.append(1)
    tool.SHOWN.add("encode_discriminant")
    tool.PREP.append(named)
    return STEPS


def named(o):
    """the same path with every step it took, and every loop it ran, replaced by a name: `f` for what f returned, f' for what it left behind"""
    if o.tag == "panic": return o
    m, defs, cnt, seen = {}, [], {}, set()

    def fresh(s):
        n = cnt[s] = cnt.get(s, 0) + 1
        return s if n == 1 else "%s#%d" % (s, n)

    def loops(t):
        if isinstance(t, tuple):
            for y in t: loops(y)
        if not isinstance(t, T) or t in seen: return
        seen.add(t)
        for y in (t.a[:2] if t.k in ("fold", "forall") else () if t.k == "lam" else t.a): loops(y)
        if t.k == "fold":
            s = fresh("loop")
            defs.append("%s = %s" % (s, cshow(plain(subst(t, m)))))
            m[t] = sym(s)
    for e in o.st.events:
        if e[0] != "call" or e[3].k != "eff": continue
        _, name, snap, r, sp, args = e
        for a in snap: loops(a)
        s = fresh(name.rsplit("::", 1)[-1])
        defs.append("%s(%s)" % (s, ", ".join(cshow(plain(subst(reduce(o.st.facts, a), m))) for a in snap)))
        m[r] = sym(s)
        if r in TERM_ENUM: TERM_ENUM[m[r]] = TERM_ENUM[r]
        k, refs = r.a[2] + 1, [a for a in args if a.k == "mref"] + [c for a in args if a.k == "closure" for c in a.a[1] if c.k == "mref"]
        after = [t for t in everything(o) if t.k == "after" and t.a[0] == name and (len(t.a) == 3 and t.a[1] == k)]
        olds = [y for x, y in zip(args, snap) if x.k == "mref"]
        for t in after:
            i = olds.index(t.a[2]) if t.a[2] in olds else len(olds)
            m[t] = sym(s + "'" + ("" if len(refs) == 1 else str(i + 1)))
    for t in [o.val] + [f for f, _ in o.st.order] + [v for v in o.st.store.values() if isinstance(v, T)]: loops(t)
    return Named(o, m, defs)


def fetch(x, n): return mk("f", x, n)


def of_thread(t):
    """X.thread: X.threads[X.active_thread]; X.top: the last element of X.stack"""
    if t.k == "idx" and t.a[0].k == "f":
        x, n = t.a[0].a[:2]
        if n == "threads" and t.a[1] is field(x, "active_thread"): return x, "thread"
        if n == "stack" and t.a[1] is add(mk("call", "len", (t.a[0],)), intt(-1)): return x, "top"


def plain(t, memo=None):
    """the same term with the active thread, and the top frame of a stack, called by name"""
    memo = {} if memo is None else memo
    if t in memo: return memo[t]

    def go(x): return plain(x, memo) if isinstance(x, T) else tuple(go(y) for y in x) if isinstance(x, tuple) else x
    p = of_thread(t)
    if p: r = fetch(plain(p[0], memo), p[1])
    elif t.k == "upd" and t.a[1][0] == "f" and t.a[1][1] in ("threads", "stack") and t.a[2].k == "upd" and t.a[2].a[1][0] == "idx" and of_thread(mk("idx", t.a[2].a[0], t.a[2].a[1][1])) and t.a[2].a[0].a[0] is base(t.a[0]):
        r = mk("upd", plain(t.a[0], memo), ("f", {"threads": "thread", "stack": "top"}[t.a[1][1]]), plain(t.a[2].a[2], memo))
    elif t.k in ("sym", "int", "bool", "str", "const"): r = t
    else:
        na = tuple(go(x) for x in t.a)
        r = t if na == t.a else mk(t.k, *na)
    if t in TERM_ENUM: TERM_ENUM[r] = TERM_ENUM[t]
    memo[t] = r
    return r


def base(t):
    while t.k == "upd": t = t.a[0]
    return t


def everything(o):
    seen, out = set(), []
    for t in [o.val] + [f for f, _ in o.st.order] + [v for v in o.st.store.values() if isinstance(v, T)] + [a for e in o.st.events if e[0] == "call" for a in e[2]]:
        for x in subterms(t):
            if x not in seen: seen.add(x); out.append(x)
    return out


class Named:
    def __init__(self, o, m, defs):
        self.o, self.kind, self.loc, self.tag, self.halt = o, o.kind, o.loc, o.tag, o.halt
        self.st = o.st.copy()
        memo = {}
        subst = lambda t, m: plain(terms.subst(t, m), memo)
        self.st.order = [(subst(f, m), v) for f, v in o.st.order]
        self.st.facts = {subst(f, m): v for f, v in o.st.facts.items()}
        self.st.store = {k: subst(v, m) if isinstance(v, T) else v for k, v in o.st.store.items()}
        self.val = subst(o.val, m)
        self.facts = self.st.order
        self.defs = defs

    def __getattr__(self, n): return getattr(self.o, n)


def propagates(o, got=None):
    """the path hands on the refusal of a step it took (or of a part it checked)"""
    v = o.val
    if not is_adt(v, "Err"): return False
    x = adtf(v, "0")
    return x.k == "vf" and x.a[1:] == ("Err", "0") and any(f.k == "is" and f.a[0] is x.a[0] and f.a[1] == ("Err" if v else "Ok") for f, v in o.facts)


def done(o):
    """result ; what becomes of the mutable parameters ; the steps taken, in order (`?`: which must succeed) and what holds for every element of the
    collections gone through"""
    out = [cshow(reduce(o.st.facts, o.val))]
    if is_adt(o.val, "Err"): return out[0]
    for k, v in sorted(o.st.store.items(), key=lambda x: str(x[0])):
        if k[0] == "arg" and isinstance(v, T) and v is not sym(k[1]): out.append("%s := %s" % (k[1], cshow(reduce(o.st.facts, v))))
    okay = dict.fromkeys(cshow(f.a[0]) for f, v in o.facts if f.k == "is" and v and f.a[1] == "Ok")
    for d in getattr(o, "defs", ()):
        n = d.split("(")[0]
        out.append(d + "?" if n in okay else d)
        okay.pop(n, None)
    out += [x + "?" for x in okay]
    for l, v in tool.literals(o).items():
        if l.startswith("forall "): out.append(("for all" if v else "not for all") + l[6:])
    return " ; ".join(out)


def book(c, text, shows=(), accepts=()):
    tool.ACCEPT.append(propagates)
    return tool.book(c, text, opaque=setup(), show=done, shows=shows, accepts=accepts)
