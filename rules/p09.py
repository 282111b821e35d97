"""P09: Tree Borrows: every access visits the whole tree with the right relation, and every memory operation performs the right tree access."""
from terms import *
from rule import E, holds, loop_base, fdict, expand, each, some_el

META = dict(rule="Loop-body contracts on the recursive tree access (each byte of the accessed range of each node is transitioned exactly once with the relation of that node to the accessed one; every child "
            "is visited, on the path iff it is the path's next element), two-sided contract of the deallocation veto over the whole tree, and exact tree access per load/store/deallocation.")
ACC, PT = "Node::access", "Permission::transition"


def loops(o):
    return [(e[1], e[2], e[3]) for e in o.st.events if e[0] == "loop"]


def calls_in(evs, name): return [e for e in evs if e[0] == "call" and e[1] == name]


def covers(src, el, idx, start, end):
    """the index expression idx(el) takes each value of [start, end) exactly once"""
    if src.k == "rev": return covers(src.a[0], el, idx, start, end)
    if src.k == "enum" and el.k == "tuple":
        return idx is el.a[0][0] and start is intt(0) and (end is E("len(x)", {"x": src.a[0]}))
    if not is_adt(src, "Range"):
        return False
    a, b = adtf(src, "start"), adtf(src, "end")
    if el.k == "tuple": return False
    k = sub(idx, el)
    if el in list(subterms(k)): return False
    return add(a, k) is start and add(b, k) is end


def byte_loop(c, name, fn, o, perms, start, end, kind, relation_local):
    """exactly one loop transitions permissions, covering [start,end) with the given kind/relation"""
    n = 0
    for src, el, alts in loops(o):
        if not any(calls_in(evs, PT) for _, evs in alts): continue
        n += 1
        for facts, evs in alts:
            cs = calls_in(evs, PT)
            if not c.must(len(cs) == 1, name + "/each-byte-once", fn, "a byte's permission is transitioned %d times in one access" % len(cs), o): continue
            p = loop_base(cs[0][2][0])
            ok = p.k == "idx" and p.a[0] is perms and covers(src, el, p.a[1], start, end)
            c.must(ok, name + "/range", fn, "the bytes transitioned are not exactly those of the access: %s over %s" % (show(p), show(src)), o)
            c.must(cs[0][2][1] is kind, name + "/kind", fn, "the permission transition uses access kind %s" % show(cs[0][2][1]), o)
            d = dict(o.st.facts); d.update(dict(facts))
            c.must(holds(d, isv(cs[0][2][2], "Local" if relation_local else "Foreign")) is True, name + "/relation", fn,
                   "a node %s the accessed one is treated as %s" % ("on the path to" if relation_local else "not on the path to", show(cs[0][2][2])), o)
            w = [e for e in evs if e[0] == "write"]
            fin = field(o.st.store[("arg", "self")], "permissions")
            c.must(fin is not perms and all(any(k == ("f", "permissions") for k in e[2]) for e in w), name + "/written-back", fn, "the new permission is not stored back (only)", o)
            c.must(holds(d, isv(cs[0][3], "Ok")) is True, name + "/ub-propagates", fn, "undefined behavior found while transitioning a byte is ignored", o)
    return n


def child_loop(c, name, fn, o, rec, nchild, args_after_path):
    n = 0
    for src, el, alts in loops(o):
        if not any(calls_in(evs, rec) for _, evs in alts): continue
        n += 1
        for facts, evs in alts:
            d = dict(o.st.facts)
            for f, v in facts: d[f] = v
            cs = calls_in(evs, rec)
            if not c.must(len(cs) == 1, name + "/each-child-once", fn, "a child is visited %d times" % len(cs), o): continue
            ch = loop_base(cs[0][2][0])
            ok = ch.k == "idx" and ch.a[0].k == "f" and ch.a[0].a[1] == "children" and covers(src, el, ch.a[1], intt(0), E("len(x)", {"x": ch.a[0]}))
            c.must(ok, name + "/all-children", fn, "not every child is visited: %s over %s" % (show(ch), show(src)), o)
            if not ok: continue
            sp = mk("call", "List::split_first", (E("path.Some._0"),))
            on = E("path is Some and s is Some and s.Some._0._0 == i", {"s": sp, "i": ch.a[1]})
            r = holds(d, on)
            if c.must(r is not None, name + "/child-relation-decided", fn, "whether a child is on the path is not decided by the path's first element", o):
                want = E("Some(s.Some._0._1)", {"s": sp}) if r else None
                got = cs[0][2][1]
                okp = got is want if r else (got.k == "adt" and got.a[1] == "None") or holds(d, isv(got, "None")) is True
                c.must(okp, name + "/child-path", fn, "a child %s the path is visited with path %s" % ("on" if r else "off", show(got)), o)
            c.must(tuple(cs[0][2][2:]) == tuple(args_after_path), name + "/child-args", fn, "a child is visited with a different access: %s" % [show(x) for x in cs[0][2][2:]], o)
            c.must(holds(d, isv(cs[0][3], "Ok")) is True, name + "/child-ub", fn, "undefined behavior found in a child is ignored", o)
    return n


def check(c):
    # the recursive access
    nok = 0
    for o in c.paths(ACC, opaque=[ACC, PT]):
        if o.tag in ("Err",):
            e = adtf(o.val, "0")
            c.must(e.k == "vf" and e.a[0].k in ("call", "eff"), "access/err-source", ACC, "an access fails for a reason other than a permission transition", o); continue
        if o.tag == "panic": continue
        if not c.must(o.tag == "Ok", "access/outcome", ACC, "an access ends with %s although no permission transition failed" % o.tag, o): continue
        nok += 1
        loc = o.holds(E("path is Some"))
        if not c.must(loc is not None, "access/relation-decided", ACC, "the relation does not depend on the path", o): continue
        nb = byte_loop(c, "access", ACC, o, E("self.permissions"), sym("offset_in_alloc"), E("offset_in_alloc + size"), sym("access_kind"), loc)
        c.must(nb == 1, "access/self-visited", ACC, "a node's own permissions are updated by %d passes" % nb, o)
        nc = child_loop(c, "access", ACC, o, ACC, None, (sym("access_kind"), sym("offset_in_alloc"), sym("size")))
        c.must(nc == 1, "access/children-visited", ACC, "a node's children are visited by %d passes" % nc, o)
    c.floor("access paths", nok, 2, ACC)
    # deallocation veto
    V = "Node::contains_strong_protector_preventing_deallocation"
    pd = E("call('Permission::prevents_deallocation', el)", {"el": mk("placeholder", E("self.permissions"))})
    own = conj(E("self.protected is Strong"), neg(each("self.permissions", neg(pd))))
    sub_ = neg(each("self.children", neg(E("call('%s', el)" % V, {"el": mk("placeholder", E("self.children"))}))))
    n = 0
    for o in c.paths(V, opaque=[V, "Permission::prevents_deallocation"]):
        if o.tag != "value": continue
        n += 1
        veto = disj(own, sub_)
        for val in (True, False):
            f = o.val if val else neg(o.val)
            if holds(o.st.facts, f) is False: continue
            d = dict(o.st.facts); d.update(fdict(expand([f])))
            r = holds(d, veto)
            c.must(r is val, "veto/%s" % val, V, "deallocation is %s although %s" % ("vetoed" if val else "not vetoed",
                   "no strongly protected node prevents it" if val else "some strongly protected node in the tree may prevent it"), o)
    c.floor("veto paths", n, 2, V)
    # hooks
    A = "self.mem.allocations[ptr.provenance.Some._0._0._0]"
    for op, kind, ln in (("load", "Read", sym("len")), ("store", "Write", E("len(bytes)"))):
        f = "<TreeBorrowsMemory as Memory>::" + op
        n = 0
        for o in c.paths(f, opaque=[ACC]):
            cs = o.calls(ACC)
            if o.tag == "Ok":
                zero = holds(o.st.facts, eq(ln, intt(0)))
                if zero: c.must(not cs, op + "/zero-sized", f, "a zero-sized access touches the tree", o); continue
                n += 1
                ok = len(cs) == 1
                if ok:
                    a = cs[0][2]
                    ok = a[0] is E(A + ".extra.root") and a[1] is E("Some(ptr.provenance.Some._0._1)") and a[2].k == "adt" and a[2].a[1] == kind and a[3] is E("ptr.addr - %s.addr" % A) and a[4] is ln
                c.must(ok, op + "/tree-access", f, "a %s does not perform exactly one tree %s access of its own range with its own tag: %s" % (op, kind, [[show(y) for y in x[2]] for x in cs]), o)
                if ok:
                    c.must(o.holds(isv(cs[0][3], "Ok")) is True, op + "/obeyed", f, "the verdict of the tree access is ignored", o)
                    fin = o.st.store[("arg", "self")]
                    root = E("self.mem.allocations[i].extra.root", {"self": fin, "i": E("ptr.provenance.Some._0._0._0")})
                    c.must(root.k == "after" and root.a[0] == ACC, op + "/tree-kept", f, "the updated tree is not stored back", o)
        c.floor(op + " paths", n, 1, f)
    f = "<TreeBorrowsMemory as Memory>::deallocate"
    n = 0
    for o in c.paths(f, opaque=[ACC, V]):
        cs, vs = o.calls(ACC), o.calls(V)
        if o.tag != "Ok":
            continue
        n += 1
        a = cs[0][2] if len(cs) == 1 else None
        ok = a is not None and a[0] is E(A + ".extra.root") and a[1] is E("Some(ptr.provenance.Some._0._1)") and a[2].k == "adt" and a[2].a[1] == "Write" and \
            holds(o.st.facts, eq(a[3], intt(0))) is True and holds(o.st.facts, eq(a[4], sym("size"))) is True
        c.must(ok, "deallocate/write", f, "deallocation does not perform exactly one write access to the whole allocation", o)
        if ok: c.must(o.holds(isv(cs[0][3], "Ok")) is True, "deallocate/obeyed", f, "the verdict of the deallocation's write access is ignored", o)
        ok = len(vs) == 1 and holds(o.st.facts, neg(vs[0][3])) is True and vs[0][2][0].k == "after"
        c.must(ok, "deallocate/veto", f, "deallocation succeeds without (or against) the check for strong protectors of the whole tree, after the write access", o)
    c.floor("deallocate paths", n, 1, f)
    # permissions change nowhere else
    from query import Graph
    G = Graph(c.P)
    al = {ACC, "Node::release_protector", "Node::transition"}
    cs = list(G.callers(PT))
    c.floor("callers of the permission transition", len(cs), 2)
    for x in cs:
        c.must(G.only_via(x, {ACC, "Node::release_protector"}), "transition-from:" + x, x, "permissions are transitioned from `%s`, outside an access or a protector release" % x)
