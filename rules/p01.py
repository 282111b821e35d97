"""P01: memory accesses and deallocation succeed exactly when the pointer, bounds, liveness, alignment allow it."""
from terms import sym

META = dict(rule="Two-sided contract over every path of the basic memory model's load, store, deallocate and dereferenceability test (helpers inlined): "
            "a successful path must establish every requirement (provenance, liveness, in-bounds, alignment; for deallocation: base address, kind, size, alignment) "
            "and leave exactly the stated memory; a path that reports UB must refute a requirement.",
            assumptions=["AllocId values always index the allocation list (rule P02 checks that they are only minted by allocation)"])

ENV = dict(Aid="ptr.provenance.Some._0._0._0", A="self.allocations[Aid]", off="ptr.addr - A.addr", sz="len(A.data)", n=sym("len"))


def inbounds(n):
    return [("provenance", "%s == 0 or ptr.provenance is Some" % n),
            ("live", "%s == 0 or A.live" % n),
            ("not-before-start", "%s == 0 or off >= 0" % n),
            ("not-past-end", "%s == 0 or off + %s <= sz" % (n, n))]


ALIGN = [("aligned", "aligned(align, ptr.addr)")]


def check(c):
    M = "<BasicMemory as Memory>::"
    c.contract("load", M + "load", env=ENV, requires=ALIGN + inbounds("n"), min_bad=5, min_ok=2, panics="forbid",
               ensures=[("returns exactly the stored bytes", "result == term('subslice', A.data, off, n)", "n != 0"),
                        ("a zero-sized load returns no bytes", "len(result) == 0", "n == 0")],
               post={"self": "self"})
    env = dict(ENV, n="len(bytes)")
    c.contract("store", M + "store", env=env, requires=ALIGN + inbounds("n"), min_bad=5, min_ok=2,
               ensures=[("writes exactly the given bytes at the offset and nothing else",
                         "post_self == upd(self,'allocations',upd_at(self.allocations, Aid, upd(A,'data',term('wsub', A.data, off, bytes))))", "n != 0"),
                        ("a zero-sized store writes nothing", "post_self == self", "n == 0")])
    c.contract("dereferenceable", M + "dereferenceable", env=ENV, requires=inbounds("n"), min_bad=4, min_ok=2)
    c.contract("deallocate", M + "deallocate", env=ENV, min_bad=6,
               requires=[("provenance", "ptr.provenance is Some"), ("live", "A.live"), ("base address", "ptr.addr == A.addr"),
                         ("same kind", "kind == A.kind"), ("same size", "size == sz"), ("same alignment", "align == A.align")],
               post={"self": "upd(self,'allocations',upd_at(self.allocations, Aid, upd(A,'live',false)))"})
