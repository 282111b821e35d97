"""Whole-program queries over the MIR: who calls / constructs / writes what, reachability over the resolved call graph."""
from engine import canon


def owner(name):
    """the named function a closure belongs to"""
    return name.split("::{")[0]


class Graph:
    def __init__(self, prog, crate=None):
        self.p = prog
        self.calls = {}      # fn -> set of callee names (resolved or trait method), closures folded into their owner
        self.sites = {}      # callee -> [(fn, span)]
        self.cons = {}       # (adt path, variant) -> set of fns
        self.consites = {}
        self.fieldw = {}     # (field name, owner type text) -> set of fns
        self.panics = {}
        for (n, pr), b in prog.bodies.items():
            if crate and b.crate != crate: continue
            o = owner(n)
            cs = self.calls.setdefault(o, set())
            for blk in b.blocks:
                for pl, rv, sp in blk["s"]:
                    self.rv(o, rv, sp, cs)
                t = blk["t"]
                if t[0] == "call":
                    f = t[1]
                    if "fn" in f:
                        nm = canon(f["res"] or f["fn"])
                        cs.add(nm)
                        self.sites.setdefault(nm, []).append((o, blk["sp"], b, t))
                        tn = canon(f["fn"])
                        if tn != nm:
                            cs.add(tn)
                            self.sites.setdefault(tn, []).append((o, blk["sp"], b, t))
                    for a in t[2]: self.opd(o, a, cs)
        # trait methods: an unresolved call to Trait::m may reach every impl
        self.impls = {}
        for (n, pr) in prog.bodies:
            if n.startswith("<") and " as " in n and "::{" not in n:
                ty, rest = n[1:].split(" as ", 1)
                tr, m = rest.rsplit(">::", 1)
                self.impls.setdefault(tr.split("<")[0] + "::" + m, set()).add(n)

    def opd(self, o, a, cs):
        if isinstance(a, dict) and "fn" in a: cs.add(canon(a["res"] or a["fn"]))

    def rv(self, o, rv, sp, cs):
        if rv[0] == "adt":
            path = canon(rv[1])
            self.cons.setdefault((path, rv[2]), set()).add(o)
            self.consites.setdefault((path, rv[2]), []).append((o, sp))
            for a in rv[4]: self.opd(o, a, cs)
        elif rv[0] in ("use", "cast"):
            for a in rv[1:]:
                self.opd(o, a, cs)

    def callers(self, name):
        return {f for f, cs in self.calls.items() if name in cs}

    def reach(self, roots):
        seen = set(); work = list(roots)
        while work:
            x = work.pop()
            if x in seen: continue
            seen.add(x)
            for y in self.calls.get(x, ()):
                work.append(y)
                work += self.impls.get(y, ())
        return seen

    def only_via(self, fn, allowed):
        """fn is one of `allowed`, or a (private) helper all of whose callers are"""
        seen = set(); work = [fn]
        while work:
            x = work.pop()
            if x in seen or x in allowed: continue
            seen.add(x)
            cs = self.callers(x)
            if not cs: return False
            work += cs
        return True
