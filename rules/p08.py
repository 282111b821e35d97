"""P08: the Tree Borrows permission state machines."""
from terms import *
from rule import E

META = dict(rule="Decision-table check: every path of the permission transition, initial-access, protector-release and deallocation-veto functions agrees with every row of "
            "the Tree Borrows tables (all 6 unprotected and 10 protected states x read/write x local/foreign) compatible with the path's conditions, and every row is handled by some path.")

UN = ["Cell", "Reserved", "ReservedIm", "Unique", "Frozen", "Disabled"]
B = (False, True)
PR = ["Cell", "Unique", "Disabled"] + [("Frozen", l) for l in B] + [("Reserved", l, f) for l in B for f in B]
UB = "UB"


def unprot(s, loc, wr):
    if s == "Cell": return s
    if loc:
        if s == "Disabled": return UB
        if wr: return UB if s == "Frozen" else "Unique"
        return s
    if wr: return s if s == "ReservedIm" else "Disabled"
    return "Frozen" if s == "Unique" else s


def prot(s, loc, wr):
    n = s if isinstance(s, str) else s[0]
    if n == "Cell": return s
    if loc:
        if n == "Disabled": return UB
        if n == "Unique": return s
        if wr:
            if n == "Frozen": return UB
            return UB if s[2] else "Unique"
        return ("Frozen", True) if n == "Frozen" else ("Reserved", True, s[2])
    if n == "Unique": return UB
    if n == "Disabled": return s
    if wr: return UB if s[1] else "Disabled"
    return s if n == "Frozen" else ("Reserved", s[1], True)


def unprotect(s):
    n = s if isinstance(s, str) else s[0]
    acc = "Write" if n == "Unique" else ("Read" if n in ("Frozen", "Reserved") and s[1] else None)
    return n, acc


def cond(x, m, s):
    """formula: permission term x is in machine m ('Prot'/'Unprot'), state s"""
    p = "%s.%s._0" % (x, m)
    n = s if isinstance(s, str) else s[0]
    f = "%s is %s and %s is %s" % (x, m, p, n)
    if not isinstance(s, str):
        for b, nm in zip(s[1:], ("had_local_read", "had_foreign_read")):
            f += " and %s%s.%s.%s" % ("" if b else "not ", p, n, nm)
    return f


def states(): return [("Unprot", s) for s in UN] + [("Prot", s) for s in PR]


def check(c):
    T_ = "Permission::transition"
    b = c.P.fn(T_)
    adts = {"PermissionUnprot": UN, "PermissionProt": ["Cell", "Reserved", "Unique", "Frozen", "Disabled"]}
    for a, vs in adts.items():
        c.must(sorted(c.P.variants(a)) == sorted(vs), "states:" + a, T_, "%s has states %s, the tables cover %s" % (a, sorted(c.P.variants(a)), sorted(vs)))
    rows = []
    for m, s in states():
        for loc in B:
            for wr in B:
                r = (unprot if m == "Unprot" else prot)(s, loc, wr)
                lab = "%s %s, %s %s" % (m, s, "local" if loc else "foreign", "write" if wr else "read")
                f = cond("self", m, s) + " and node_relation is %s and access_kind is %s" % ("Local" if loc else "Foreign", "Write" if wr else "Read")
                rows.append((lab, f, "Ub" if r == UB else "Ok", [] if r == UB else [cond("post_self", m, r)]))
    c.table("transition", T_, c.paths(T_), rows)
    f = "Permission::init_access"
    rows = []
    for m, s in states():
        r = ["not (result is Some)"] if s == "Cell" else ["result is Some and result.Some._0 is Read"]
        rows.append(("%s %s" % (m, s), cond("self", m, s), "value", r))
    c.table("initial access", f, c.paths(f), rows)
    f = "Permission::unprotect"
    rows = []
    for m, s in states():
        if m != "Prot": continue
        n, acc = unprotect(s)
        rows.append((str(s), cond("self", m, s), "value", [cond("result._0", "Unprot", n), "not (result._1 is Some)" if acc is None else "result._1 is Some and result._1.Some._0 is %s" % acc]))
    c.table("protector release", f, c.paths(f), rows)
    f = "Permission::prevents_deallocation"
    rows = []
    for m, s in states():
        stops = m == "Prot" and (s == "Unique" or not isinstance(s, str) and s[1])
        # the variants of the two machines: vetoes iff a foreign write would be UB
        assert stops == (m == "Prot" and prot(s, False, True) == UB)
        rows.append(("%s %s" % (m, s), cond("self", m, s), "value", ["result" if stops else "not result"]))
    c.table("prevents deallocation", f, c.paths(f), rows)
