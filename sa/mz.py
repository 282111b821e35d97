"""Shared vocabulary for the rules over minimize: which functions are one step, and how results are written down."""
import tool
from mu import U, UT
F, C = "mz::FnCtxt::", "mz::Ctxt::"
STEPS = [F + "translate_operand_smir", F + "translate_place_smir", F + "translate_rvalue_smir", F + "translate_const_smir", F + "translate_const_val", F + "translate_const_allocation",
         F + "translate_relocation", F + "translate_unwind_action", F + "translate_panic", F + "translate_alloc_id",
         C + "translate_ty_smir", C + "translate_ty", C + "pointee_info_of_smir", C + "pointee_info_of", C + "get_vtable", C + "get_trait_name", C + "get_fn_name_smir", C + "get_fn_name",
         C + "discriminant_for_variant_smir", C + "discriminant_for_variant", C + "rs_layout_of_smir", C + "rs_layout_of", C + "translate_enum", C + "translate_non_enum_adt",
         C + "translate_adt_variant_fields", C + "tuple_from_layout", C + "cells_in_sized_ty", C + "cells_from_layout", C + "generate_trait", C + "generate_vtable", "mz::calc_chunks", "mz::int_from_bits", "mz::translate_calling_convention",
         "?Type::layout", "?LayoutStrategy::meta_kind", "?Type::meta_kind", "?PtrType::meta_kind"]
ABBR = {"translate_operand_smir": ("op", (1,)), "translate_place_smir": ("place", (1,)), "translate_rvalue_smir": ("rvalue", (1,)), "translate_ty_smir": ("type", (1,)), "translate_ty": ("type", (1,)),
        "translate_operand": ("op", (1,)), "translate_place": ("place", (1,)), "translate_const_smir": ("constant", (1,)), "translate_const_val": ("constval", (1, 2)),
        "pointee_info_of_smir": ("pointee", (1,)), "pointee_info_of": ("pointee", (1,)), "discriminant_for_variant_smir": ("discr", (1, 2)), "discriminant_for_variant": ("discr", (1, 2)),
        "get_fn_name_smir": ("fn_name", (1,)), "get_fn_name": ("fn_name", (1,)), "get_vtable": ("vtable", (1, 2)), "get_trait_name": ("trait_name", (1,)),
        "rs_layout_of_smir": ("rslayout", (1,)), "rs_layout_of": ("rslayout", (1,)), "ty": ("tyof", (0, 1, 2)), "builtin_deref": ("pointee_ty", (0,)), "internal": ("i", (1,)), "stable": ("s", (0,)),
        "int_from_bits": ("bits", (0, 1)), "translate_calling_convention": ("cc", (0,)), "translate_unwind_action": ("unwind_to", (1,)), "translate_panic": ("panic", (1,))}
INST = "expect_resolve(self.tcx, fully_monomorphized(), kind(tyof(func)).FnDef.0, kind(tyof(func)).FnDef.1, span)"
TEXT = [(", self.locals_smir)", ")"), (", self.body, self.tcx)", ")"), (".0.0.pointer", ""), ("BbName(from_internal(self.next_bb))", "FRESHBB"), (U, "UNITPLACE"), (UT, "UNIT")] + [("Int(IntType{signed: %s, size: %d})" % (s, n), "%s%d" % (s[0].lower().replace("s", "i"), n * 8)) for s in ("Unsigned", "Signed") for n in (1, 2, 4, 8, 16)]

CALL = [("item_name(self.tcx, def_id(intrinsic))", "NAME"), (INST, "INSTANCE"), ("as_str(crate_name(self.tcx, kind(tyof(func)).FnDef.0.krate))", "CRATE"), ("as_str(item_name(self.tcx, kind(tyof(func)).FnDef.0))", "ITEM"),
        ("{each(rs_args).node is Move: InPlace(place(s(each(rs_args).node.Move.0))); !(each(rs_args).node is Move): ByValue(op(s(each(rs_args).node)))} for rs_args", "ARG for rs_args"),
        ("fn_abi_of_fn_ptr(self, with(kind(tyof(func)).FnPtr.0, kind(tyof(func)).FnPtr.1), empty(rustc_middle::ty::Ty<'_>)).conv", "PTRCONV"),
        ("fn_abi_of_instance(self.tcx, as_query_input(fully_monomorphized(), (INSTANCE, empty(rustc_middle::ty::Ty<'_>))))!.conv", "CONV")]


def setup():
    tool.ABBR.update(ABBR)
    tool.EMBED.add("cx")
    tool.TEXT[:] = TEXT + CALL


def _chain(t, kind):
    """insert chain -> (base, [(key, value)])"""
    kv = []
    while t.k == "minsert":
        kv.append((t.a[1], t.a[2])); t = t.a[0]
    return t, kv[::-1]


def _fresh(t):
    """(kind, k) if t is the k-th name handed out by self.next_bb / self.next_local / self.cx..."""
    from terms import to_lin
    if t.k == "adt" and t.a[0].rsplit("::", 1)[-1] in ("BbName", "LocalName") and len(t.a[2]) == 1:
        x = t.a[2][0][1]
        if x.k == "call" and x.a[0].endswith("from_internal"):
            c, d = to_lin(x.a[1][0])
            if len(d) == 1 and list(d.values()) == [1]:
                (y,) = d
                if y.k == "f" and y.a[1] in ("next_bb", "next_local"): return y.a[1], c
    return None


def frag(o):
    """the result and what was added to the function under construction, with fresh names numbered in order of use: the order in which names are drawn
    and blocks inserted does not matter"""
    from terms import T, mk, sym, subst, to_lin, sub
    import tool
    v = tool.reduce(o.st.facts, o.val)
    s = o.st.store.get(("arg", "self"))
    upds = {}
    if s is not None:
        s = tool.reduce(o.st.facts, s)
        while s.k == "upd" and s.a[1][0] == "f" and s.a[1][1] not in upds:
            upds[s.a[1][1]] = s.a[2]; s = s.a[0]
        if tool.cshow(s) != "self": return tool.withself(o)
    if "cx" in upds:   # the program-wide context is embedded in that of a function
        s = upds.pop("cx")
        while s.k == "upd" and s.a[1][0] == "f" and s.a[1][1] not in upds:
            upds[s.a[1][1]] = s.a[2]; s = s.a[0]
        if tool.cshow(s) != "self": return tool.withself(o)
    bbase, blocks = _chain(upds.pop("blocks"), "minsert") if "blocks" in upds else (None, [])
    lbase, locs = _chain(upds.pop("locals"), "minsert") if "locals" in upds else (None, [])
    bd, ld = dict(blocks), dict(locs)
    m, order = {}, []
    bad = []

    def visit(t):
        if isinstance(t, tuple):
            for y in t: visit(y)
            return
        if not isinstance(t, T): return
        if t in m: return
        fr = _fresh(t)
        if fr:
            m[t] = sym(("b%d" if fr[0] == "next_bb" else "l%d") % sum(1 for x in m if _fresh(x)[0] == fr[0]))
            order.append(t)
            if t in bd: visit(bd[t])
            if t in ld: visit(ld[t])
            return
        for y in t.a: visit(y)
    visit(v)
    for k, w in blocks: visit(k); visit(w)
    for k, w in locs: visit(k); visit(w)
    for f in ("next_bb", "next_local"):
        ks = sorted(_fresh(x)[1] for x in m if _fresh(x)[0] == f)
        adv = 0
        if f in upds:
            d = to_lin(upds[f])
            adv = d[0] if tool.cshow(upds.pop(f)) in ("(self.%s + %d)" % (f, d[0]), "self.%s" % f) else -1
        if adv < len(ks) or ks != sorted(set(ks)) or (ks and (ks[0] < 0 or ks[-1] >= adv)): bad.append("%s names collide" % f)
    if len(bd) != len(blocks) or len(ld) != len(locs): bad.append("a name is defined twice")
    sh = lambda t: tool.cshow(subst(t, m))
    out = [sh(v)]
    for t in order:
        for d, b in ((bd, bbase), (ld, lbase)):
            if t in d:
                out.append("%s = %s" % (m[t].a[0], sh(d[t])))
        if t not in bd and t not in ld: bad.append("%s is not defined" % m[t].a[0])
    for k, w in blocks + locs:
        if k not in order: out.append("%s = %s" % (sh(k), sh(w)))
    for b, n in ((bbase, "self.blocks"), (lbase, "self.locals")):
        if b is not None and tool.cshow(b) != n: bad.append("%s replaced" % n)
    for f in sorted(upds): 
        w = sh(upds[f])
        if w != "self." + f: out.append(".%s := %s" % (f, w))
    return " ; ".join(out + ["BAD: " + x for x in bad])


def memo(field, key):
    """the result; if it is also remembered in self.<field>, it must be the result that is remembered, under the key that was asked for"""
    def show(o):
        from terms import T
        import tool
        s = o.st.store.get(("arg", "self"))
        v = tool.cshow(tool.reduce(o.st.facts, o.val))
        if s is None: return v
        s = tool.reduce(o.st.facts, s)
        if tool.cshow(s) == "self": return v
        if s.k == "upd" and s.a[1] == ("f", field) and tool.cshow(s.a[0]) == "self":
            b, kv = _chain(s.a[2], "minsert")
            if tool.cshow(b) == "self." + field and all(tool.cshow(k) == key and tool.cshow(w) == v for k, w in kv): return v
        return tool.withself(o)
    return show
