"""Shared notation for the rules over miniutil's builders."""
import re
from terms import *
from tool import cshow, reduce
from rule import holds

UT = "Tuple{sized_fields: [], sized_head_layout: TupleHeadLayout{end: 0, align: 1, packed_align: None}, unsized_field: None}"
U = "Deref{operand: Constant(PointerWithoutProvenance(1), Ptr(Raw{meta_kind: None})), ty: %s}" % UT
N = "BbName(from_internal(self.next_block))"
C = "self.cur_block.Some.0"
L = "LocalName(from_internal(self.next_local))"
BASE = [(U, "$U"), (UT, "$unit"), ("Int(IntType{signed: Unsigned, size: 1})", "$u8")]
_blk = r"self\{\.blocks := minsert\(self\.blocks, self\.cur_block\.Some\.0\.name, BasicBlock\{statements: self\.cur_block\.Some\.0\.statements, terminator: (.*), kind: self\.cur_block\.Some\.0\.kind\}\)\}"


def comp(s):
    for a, b in BASE: s = s.replace(a, b)
    m = re.match(_blk + r"\{\.cur_block := None\}$", s)
    if m: s = "END<%s>" % m.group(1)
    m = re.match(_blk + r"\{\.cur_block := Some\(CurBlock\{statements: \[\], name: (.*), kind: self\.cur_block\.Some\.0\.kind\}\)\}(\{\.next_block := \(self\.next_block \+ 1\)\})?$", s)
    if m: s = "NEXT<%s|%s%s>" % (m.group(1), m.group(2), " +fresh" if m.group(3) else "")
    m = re.match(r"self\{\.cur_block := self\.cur_block\{\.Some\.0 := self\.cur_block\.Some\.0\{\.statements := push\(self\.cur_block\.Some\.0\.statements, (.*)\)\}\}\}$", s)
    if m: s = "PUSH<%s>" % m.group(1)
    return s.replace(N, "$N").replace(C, "$C").replace(L, "$L")


def shown(o):
    """result ; final state of self"""
    s = comp(cshow(reduce(o.st.facts, o.val)))
    f = o.st.store.get(("arg", "self"))
    return s if f is None else s + " ; " + comp(cshow(reduce(o.st.facts, f)))


def staged(o):
    """like shown, for methods that run closures on the builder: the state each closure is run on, then the final state; S<i> is what the i-th closure left behind"""
    f = o.st.store.get(("arg", "self"))
    runs = [e for e in o.st.events if e[0] == "call" and str(e[1]).startswith("apply:")]
    seen = {x for t in [f, o.val] + [y for e in runs for y in e[2]] if isinstance(t, T) for x in subterms(t) if x.k == "after" and str(x.a[0]).startswith("apply:")} if f is not None else set()
    depth = lambda x: sum(1 for y in seen if contains(x, y))
    m = {x: sym("S%d" % (i + 1)) for i, x in enumerate(sorted(seen, key=depth))}
    sh = lambda t: comp(cshow(reduce(o.st.facts, subst(t, m))))
    state = lambda x: {True: "open", False: "finished"}.get(holds(o.st.facts, isv(proj(x, ("f", "cur_block")), "Some")), "?")
    left = ["%s %s" % (n.a[0], state(x)) for x, n in m.items()]
    return " ; ".join(left + ["%s on %s" % (e[1][6:], ", ".join(sh(y) for y in e[2][1:])) for e in runs] + [sh(o.val)] + ([sh(f)] if f is not None else []))
