"""P02: fresh allocations: disjoint from live ones, aligned, in range, non-null, fresh identity, uninitialized contents."""
from terms import *
from rule import each, holds, E
from query import Graph

META = dict(rule="Two-sided contract on every path of the allocator plus exactness of its nondeterministic address choice: each admitted address is positive, aligned, "
            "in range and does not overlap (or coincide with) a live allocation, and each excluded address violates one of these; the new allocation is appended with a fresh id, "
            "requested kind/size/alignment and uninitialized bytes. Whole-program query: allocation identities and allocation records are constructed nowhere else.")

ENV = dict(n=sym("size"))


def check(c):
    A = "<BasicMemory as Memory>::allocate"
    outs = c.contract("allocate", A, requires=[("size fits isize", "call('Target::valid_size', size)")], min_ok=1, min_bad=1, panics="forbid")
    nondisj = each("self.allocations", "not el.live or (el.addr != x and (el.addr + len(el.data) <= x or x + size <= el.addr))",
                   {"x": mk("eff", "pick", (), 0)})
    for o in outs:
        if o.tag != "Ok": continue
        ev = c.choice("allocate", A, o, [
            ("positive", "x > 0"), ("aligned", "aligned(align, x)"),
            ("end in range", "in_bounds(x + size, Signedness.Unsigned, const('Target::PTR_SIZE'))"),
            ("disjoint from every live allocation", nondisj)], kind="pick")
        if ev is None: continue
        x = ev[2]
        env = dict(x=x, id="AllocId(len(self.allocations))")
        c.contract("allocate", A, outs=[o], env=env, min_bad=0, ensures=[
            ("address", "result.addr == x"), ("fresh identity", "result.provenance == Some((id, unit))")],
            post={"self": "upd(self,'allocations',push(self.allocations, Allocation(data=term('repeat', AbstractByte.Uninit, size), addr=x, align=align, kind=kind, live=true, extra=unit)))"})
        d = ev[4][0]
        start, end, div = field(d, "start"), field(d, "end"), field(d, "divisor")
        full = E("call('Int::pow', 2, 8*const('Target::PTR_SIZE'))")
        c.must(holds(o.st.facts, le(start, intt(1))) is True, "allocate/range-start", A, "the address range to choose from does not start at 1 or below: %s" % show(start), o)
        c.must(holds(o.st.facts, ge(end, full)) is True, "allocate/range-end", A, "the address range to choose from does not extend to the end of the address space: %s" % show(end), o)
        c.must(div is sym("align") or div is intt(1), "allocate/range-step", A, "addresses are enumerated in steps other than the alignment: %s" % show(div), o)
    G = Graph(c.P)
    ser = lambda f: "erialize" in f or f.endswith("Clone>::clone")
    for ty in ("AllocId", "Allocation"):
        fs = [f for f in G.cons.get((ty, ty), ()) if not ser(f)]
        c.floor("constructors of " + ty, len(fs), 1, A)
        for f in fs:
            c.must(G.only_via(f, {"BasicMemory::allocate", "<BasicMemory as Memory>::allocate"}), "%s-minted-by:%s" % (ty, f), f,
                   "%s values are constructed in `%s`, which is reachable without going through allocation" % (ty, f))
    # Tree Borrows allocates through the same allocator, with a fresh tree
    T_ = "<TreeBorrowsMemory as Memory>::allocate"
    for o in c.paths(T_, opaque=["BasicMemory::allocate"]):
        cs = o.calls("BasicMemory::allocate")
        ok = len(cs) == 1 and cs[0][2][1:4] == (sym("kind"), sym("size"), sym("align"))
        c.must(ok, "tb-allocate/forwards", T_, "Tree Borrows allocation does not forward kind, size and alignment to the basic allocator exactly once", o)
        if ok: c.must(o.val is cs[0][3], "tb-allocate/result", T_, "Tree Borrows allocation does not return the basic allocator's pointer", o)
