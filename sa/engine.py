"""Path-partitioned forward dataflow over MIR with value numbering.

Abstract state  = (store: cell -> value term, facts: literals that must hold, events: effects so far).
Branches partition the state by the literal they test (trace partitioning); a branch whose literal is already implied or
refuted is not taken twice.  Loops (and closures handed to List/Map/iterator combinators) are summarised: everything the
body changes is widened to an unknown, one representative element is analysed, and what every iteration establishes is
kept as a `forall` fact at the loop exit.  Calls to functions of the repository are inlined unless a rule names them as
opaque.  No solver is involved: literals are decided by normal forms, finite enum domains and difference bounds.
"""
import json, re, sys
import names
from terms import *
import terms

sys.setrecursionlimit(20000)

_strip = re.compile(r"\b(?:minirust_rs|libspecr|std|core|alloc|im|serde)::(?:[a-z_][a-z0-9_]*::(?!\{))*")


_mz = re.compile(r"\bminimize::(?:[a-z_][a-z0-9_]*::(?!\{))*")
_mu = re.compile(r"\bminiutil::(?:build::(?:[a-z_][a-z0-9_]*::(?!\{))*)?")


_rp = re.compile(r"\brustc_public::(?:[a-z_][a-z0-9_]*::(?!\{))*")
_r = re.compile(r"\brustc_[a-z_]+::(?:[a-z_][a-z0-9_]*::(?!\{))*")
_cn = {}


def canon(n):
    r = _cn.get(n)
    if r is None:
        r = _r.sub("r::", _rp.sub("rp::", _mu.sub("mu::", _mz.sub("mz::", _strip.sub("", n)))))
        for new, old in RENAMED.items():
            if r == new or r.startswith(new + "::"): r = old + r[len(new):]
        _cn[n] = r
    return r


RENAMED = {}    # functions that have another name now (see names.py)


def tsubst(t, env):
    if not env: return t
    return re.sub(r"\b[A-Za-z_]\w*\b", lambda m: env.get(m.group(0), m.group(0)), t)


class AnalysisError(Exception):
    pass


class Body:
    def __init__(self, b):
        self.name = canon(b["name"]); self.raw = b["name"]; self.promoted = b["promoted"]; self.kind = b["kind"]
        self.span = b["span"]; self.argc = b["argc"]; self.locals = b["locals"]; self.pub = b.get("pub"); self.derived = b.get("derived", False)
        self.names = {int(k): v for k, v in b["names"].items()}
        self.blocks = b["blocks"]; self.upv = b["upv"]; self.gen = b.get("gen") or []
        self._loops = None; self._origins = None; self.drivers = {}

    def origin(self, pl):
        """the place a temporary was read from"""
        if not pl or len(pl) != 1: return pl
        if self._origins is None:
            self._origins = {}
            for b in self.blocks:
                for pl, d, _ in b["s"]:
                    if len(pl) == 1:
                        src = (d[1].get("c") or d[1].get("m")) if d[0] == "use" and isinstance(d[1], dict) else None
                        self._origins[pl[0]] = src if pl[0] not in self._origins else None
        return self._origins.get(pl[0]) if pl[0] > self.argc else pl

    def succ(self, i):
        t = self.blocks[i]["t"]
        k = t[0]
        if k == "goto": return [t[1]]
        if k == "drop": return [t[2]]
        if k == "switch": return [x[1] for x in t[2]] + [t[3]]
        if k == "call": return [t[4]] if t[4] is not None else []
        if k == "assert": return [t[4]]
        return []

    @property
    def loops(self):
        """head -> set of blocks of the natural loop"""
        if self._loops is not None: return self._loops
        n = len(self.blocks)
        # iterative dfs for back edges
        color = [0] * n; back = []
        preds = {i: [] for i in range(n)}
        stack = [(0, iter(self.succ(0)))]; color[0] = 1
        while stack:
            v, it = stack[-1]
            for w in it:
                preds[w].append(v)
                if color[w] == 0:
                    color[w] = 1
                    stack.append((w, iter(self.succ(w))))
                    break
                if color[w] == 1: back.append((v, w))
            else:
                color[v] = 2
                stack.pop()
        res = {}
        for v, h in back:
            s = res.setdefault(h, {h})
            work = [v]
            while work:
                x = work.pop()
                if x in s: continue
                s.add(x)
                work += preds[x]
        self._loops = res
        return res


class Program:
    def __init__(self, paths):
        self.bodies = {}; self.adts = {}; self.impls = []; self.crates = []
        self.dup = set()
        dumps = [json.load(open(p)) for p in paths]
        for d in dumps:
            new = names.renamed(d, canon)
            if new: RENAMED.update(new); _cn.clear()
        for d in dumps:
            self.crates.append(d["crate"])
            for b in d["bodies"]:
                B = Body(b)
                B.crate = d["crate"]
                key = (B.name, B.promoted)
                if key in self.bodies and self.bodies[key].crate == d["crate"]: self.dup.add(key)
                if key not in self.bodies: self.bodies[key] = B
            for k, v in d["adts"].items():
                self.adts.setdefault(canon(k), v)
            self.impls += [(canon(a), canon(b)) for a, b in d["impls"]]
        for k, v in self.adts.items():
            if v["enum"]: terms.ENUMS[k] = [x["n"] for x in v["v"]]
        self.discr = {k: {x["d"]: x["n"] for x in v["v"]} for k, v in self.adts.items()}

    def fn(self, name):
        b = self.bodies.get((name, None))
        return b

    def fns(self):
        return [b for (n, p), b in self.bodies.items() if p is None]

    def conversions(self):
        """(from, into) -> the function the repository defines for it"""
        if not hasattr(self, "_conv"):
            self._conv = {}
            for b in self.fns():
                m = re.match(r"<(.*) as From<(.*)>>::from$", b.name)
                if m: self._conv[bare(m.group(2)), bare(m.group(1))] = b.name
        return self._conv

    def variants(self, adt):
        return [v["n"] for v in self.adts[adt]["v"]]

    def fields(self, adt, var=None):
        for v in self.adts[adt]["v"]:
            if var is None or v["n"] == var: return [f[0] for f in v["f"]]
        raise KeyError(var)


class St:
    __slots__ = ("store", "facts", "order", "events", "cnt", "nf", "elems")

    def __init__(self):
        self.store = {}; self.facts = {}; self.order = []; self.events = []; self.cnt = {}; self.nf = 0; self.elems = {}

    def copy(self):
        s = St.__new__(St)
        s.store = dict(self.store); s.facts = dict(self.facts); s.order = list(self.order)
        s.events = list(self.events); s.cnt = dict(self.cnt); s.nf = self.nf; s.elems = dict(self.elems)
        return s


NONNEG = set()      # terms known to be non-negative by their type (Size, Align, lengths)
TERM_ENUM = {}      # term -> enum path


def universe(t, V):
    p = TERM_ENUM.get(t)
    if p and V in terms.ENUMS[p]: return terms.ENUMS[p]
    if V in ("Some", "None"): return ("Some", "None")
    if V in ("Ok", "Err"): return ("Ok", "Err")
    return None


def bare(t): return re.sub(r"\b\w+::", "", t)


"""functions of traits that are taken to do the obvious, unless the repository says itself what they do"""
OWN = {"Deref::deref", "DerefMut::deref_mut", "From::from", "AsRef::as_ref", "Borrow::borrow", "ToOwned::to_owned", "ToString::to_string", "IntoIterator::into_iter", "Clone::clone", "PartialEq::eq", "PartialEq::ne",
       "PartialOrd::le", "PartialOrd::lt", "PartialOrd::ge", "PartialOrd::gt"}


def texteq(f):
    """(x, literal) of a test whether a text is this literal"""
    if f.k != "eq0": return None
    c, d = to_lin(f.a[0])
    if c or len(d) != 2 or sorted(d.values()) != [-1, 1]: return None
    a, b = sorted(d, key=lambda t: t.k == "str")
    return (a, b.a[0]) if b.k == "str" and a.k != "str" else None


def stripped(f):
    """(x, prefix, answer) of a test whether a text has this prefix"""
    if f.k == "is" and f.a[0].k == "call" and f.a[0].a[0] == "str::strip_prefix" and f.a[1] in ("Some", "None"):
        x, p = f.a[0].a[1]
        if p.k == "str": return x, p.a[0], f.a[1] == "Some"
    return None


def prefixes(g, v, f):
    """what one test of a text says about another: equality with a literal settles its prefixes, and a prefix refutes literals without it"""
    b = stripped(f)
    if b:
        a = texteq(g) if v else None
        return a[1].startswith(b[1]) == b[2] if a and a[0] is b[0] else None
    b = texteq(f)
    if b:
        a = stripped(g)
        if a and a[0] is b[0] and a[2] == v and not b[1].startswith(a[1]): return False
    return None


def decide(facts, f):
    """True / False / None: is the formula implied / refuted by the literals?"""
    k = f.k
    if k == "bool": return f.a[0]
    if k == "not":
        r = decide(facts, f.a[0])
        return None if r is None else not r
    if k == "and":
        a = decide(facts, f.a[0])
        if a is False: return False
        b = decide(facts, f.a[1])
        if b is False: return False
        return True if a and b else facts.get(f)
    if k == "or":
        a = decide(facts, f.a[0])
        if a: return True
        b = decide(facts, f.a[1])
        if b: return True
        if a is False and b is False: return False
        return facts.get(f)
    r = facts.get(f)
    if r is not None: return r
    if k == "is":
        t, V = f.a
        uni = universe(t, V)
        if uni:
            others = [w for w in uni if w != V]
            allf = True
            for w in others:
                x = facts.get(mk("is", t, w))
                if x is True: return False
                if x is not False: allf = False
            if allf: return True
        for g, v in facts.items():
            if v and g.k == "is" and g.a[0] is t and g.a[1] != V: return False
        if stripped(f):
            for g, v in facts.items():
                r = prefixes(g, v, f)
                if r is not None: return r
        if t.k == "idx":        # what holds for every element holds for this one
            for g, v in list(facts.items()):
                if v and g.k == "forall" and g.a[0] is t.a[0] and g.a[2]:
                    rs = set()
                    for al in g.a[2]:
                        d = {}
                        for c in al:
                            c = subst(c, {g.a[1]: t})
                            if c.k == "not": d[c.a[0]] = False
                            else: d[c] = True
                        rs.add(decide(d, f))
                    if len(rs) == 1 and None not in rs: return rs.pop()
        return None
    if k == "ge0": return dec_ge0(facts, f.a[0])
    if k == "eq0":
        l = f.a[0]
        nl = scale(l, -1)
        a = dec_ge0(facts, l)
        if a is False: return False
        b = dec_ge0(facts, nl)
        if b is False: return False
        if a and b: return True
        if texteq(f):
            for g, v in facts.items():
                if prefixes(g, v, f) is False: return False
        for g, v in facts.items():
            if v and g.k == "eq0" and g is not f:
                for s in (1, -1):
                    d = sub(l, scale(g.a[0], s))
                    if d.k == "int": return d.a[0] == 0
                    dd = to_lin(d)[1]
                    if len(dd) == 2 and to_lin(d)[0] == 0 and all(x.k == "str" for x in dd): return False
                    if d.k == "lin" or True:
                        # congruence through one known equality
                        x = mk("eq0", d) if d.k != "int" else None
                        if x is not None:
                            e = eq0(d)
                            w = facts.get(e)
                            if w is True: return True
        # structural congruence: eq(a,b) with enum-valued a, b of different known variants
        c, d = to_lin(l)
        if c == 0 and len(d) == 2:
            (x, cx), (y, cy) = d.items()
            if cx == -cy:
                vx, vy = known_variant(facts, x), known_variant(facts, y)
                if vx and vy and vx != vy: return False
                if vx and vx == vy and variant_fieldless(x, y, vx): return True
                if vx and excluded(facts, y, vx) or vy and excluded(facts, x, vy): return False
        return None
    if k == "forall":
        return None
    return None


FIELDLESS = {}     # (enum path, variant) -> bool


def known_variant(facts, t):
    if t.k == "adt": return t.a[1]
    for g, v in facts.items():
        if v and g.k == "is" and g.a[0] is t: return g.a[1]
    p = TERM_ENUM.get(t)
    if p:
        left = [w for w in terms.ENUMS[p] if facts.get(mk("is", t, w)) is not False]
        if len(left) == 1: return left[0]
    return None


def excluded(facts, t, V):
    return facts.get(mk("is", t, V)) is False


def variant_fieldless(x, y, V):
    p = TERM_ENUM.get(x) or TERM_ENUM.get(y)
    return bool(p) and FIELDLESS.get((p, V), False)


def dec_ge0(facts, l):
    lo = low_bound(l)
    if lo is not None and lo >= 0: return True
    hi = low_bound(scale(l, -1))
    if hi is not None and -hi < 0: return False
    lows = []     # terms known >= 0
    for g, v in facts.items():
        if g.k == "ge0":
            lows.append(g.a[0] if v else sub(scale(g.a[0], -1), intt(1)))
        elif g.k == "eq0" and v:
            lows.append(g.a[0]); lows.append(scale(g.a[0], -1))
    m = sub(scale(l, -1), intt(1))       # not (l >= 0)
    for want, res in ((l, True), (m, False)):
        for x in lows:
            b = low_bound(sub(want, x))
            if b is not None and b >= 0: return res
    if len(lows) <= 24:
        for want, res in ((l, True), (m, False)):
            vars_ = set(to_lin(want)[1])
            for x in lows:
                if not (set(to_lin(x)[1]) & vars_): continue
                w1 = sub(want, x)
                for y in lows:
                    b = low_bound(sub(w1, y))
                    if b is not None and b >= 0: return res
    return None


def low_bound(l):
    """a constant lower bound of l from term types, or None"""
    c, d = to_lin(l)
    for t, k in d.items():
        if k > 0 and t in NONNEG: continue
        return None
    return c


class Out:
    """one abstract path: its outcome, the literals it assumed, its effects and the final store"""
    __slots__ = ("kind", "val", "st", "loc", "tag", "halt")

    def __init__(self, kind, val, st, loc=None):
        self.kind = kind; self.val = val; self.st = st; self.loc = loc; self.tag = None; self.halt = None

    @property
    def facts(self): return self.st.order

    def holds(self, f): return decide(self.st.facts, f)

    def calls(self, name=None):
        return [e for e in self.st.events if e[0] == "call" and (name is None or e[1] == name)]

    def __repr__(self):
        return "%s %s | %s" % (self.kind, self.val, " ; ".join(("" if v else "NOT ") + show(f) for f, v in self.st.order))


def changes(lv, vals):
    """does an iteration do more to this cell than hand it to opaque steps?"""
    import tool
    return any(v is not lv and tool.cshow(v) != tool.cshow(lv) for v in vals)


def leaves(hav):
    """the cells an iteration rewrites, down to single fields: [(the stand-in for its value at the start of an iteration, how to read it in a store)]"""
    res = []

    def go(v, get):
        if v.k in ("loopvar", "lvl"): res.append((v, get))
        elif v.k == "upd":
            b = v
            while b.k == "upd":
                go(b.a[2], lambda s, k=b.a[1]: proj(get(s), k))
                b = b.a[0]
            if b.k in ("loopvar", "lvl"): res.append((b, get))
        elif v.k == "adt":
            for n, x in v.a[2]: go(x, lambda s, n=n: proj(get(s), ("f", n)))
        elif v.k == "tuple":
            for i, x in enumerate(v.a[0]): go(x, lambda s, i=i: proj(get(s), ("f", str(i))))
    for key, v in hav.items(): go(v, lambda s, key=key, v=v: s.get(key, v))
    return res


def fold_of(var, cells, src, el, conds):
    """final value of `var` when an iteration over src simultaneously updates `cells`: {var: (initial, [value after each alternative])}, given the
    conditions of the alternatives.  Canonical: only the cells it depends on, in order of first use."""
    import tool
    cell = {v: mk("acc", src, "cell%d" % i) for i, v in enumerate(cells)}
    order = [var]
    i = 0
    bodies = []
    while i < len(order):
        vals = cells[order[i]][1]
        if all(v is vals[0] for v in vals): body = vals[0]
        else: body = mk("choice", tuple((tuple(c for c in cs if not (c.k == "forall")), v) for cs, v in zip(conds, vals)))
        body = tool.reduce({}, subst(body, cell))       # conditions that do not matter to this cell do not make it depend on others
        bodies.append(body)
        for x in sorted((x for x in cells if contains(body, cell[x])), key=lambda x: x.id):
            if x not in order: order.append(x)
        i += 1
    ren = {cell[v]: mk("acc", src, i) for i, v in enumerate(order)}
    return mk("fold", src, tuple(cells[v][0] for v in order), el, tuple(subst(b, ren) for b in bodies))


BITS = {"8": 8, "16": 16, "32": 32, "64": 64, "128": 128, "size": 64}


def narrow(v, src, dst):
    """`v as dst`: the same number, unless dst cannot hold every src"""
    def rng(t):
        if t == "char": return 0, 2 ** 32 - 1
        if not t or t[0] not in "iu" or t[1:] not in BITS: return None
        n = BITS[t[1:]]
        return (0, 2 ** n - 1) if t[0] == "u" else (-2 ** (n - 1), 2 ** (n - 1) - 1)
    a, b = rng(src), rng(dst)
    if src in ("u64", "usize") and dst in ("u32", "usize"): return v   # positions and counts of things held in memory
    if a is None or b is None or v.k == "discr" or (b[0] <= a[0] and a[1] <= b[1]): return v
    c, d = to_lin(v)
    if not d:
        return lit((c - b[0]) % (b[1] - b[0] + 1) + b[0])
    return mk("call", "as_" + dst, (v,))


class Engine:
    def __init__(self, prog, opaque=(), depth=14, limit=60000, inline_only=None, keep=()):
        self.p = prog
        self.concrete = []       # iterators over literal lists whose loops are being unrolled
        self.opaque = {x for x in opaque if not x.startswith("?")}
        self.unless_known = {x[1:] for x in opaque if x.startswith("?")}   # "?f": f(x) stays a step unless x is a known constructor
        self.depth = depth
        self.limit = limit
        self.steps = 0
        self.npaths = 0
        self.unknown = {}
        self.inlined = set()
        self.inline_only = inline_only
        self.stack = []
        self.tenv = [{}]     # generic parameter -> type, per inlined frame
        self.cenv = {}       # closure -> the same at its creation
        for k, v in prog.adts.items():
            for x in v["v"]: FIELDLESS[(k, x["n"])] = not x["f"]

    # ---- top level
    def paths(self, name, args=None, assume=(), st=None):
        b = self.p.fn(name)
        if b is None: raise AnalysisError("anchor function `%s` not found" % name)
        st = st or St()
        al = []
        for i in range(1, b.argc + 1):
            n = b.names.get(i, "arg%d" % i)
            ty = b.locals[i]
            if args and n in args: v = args[n]
            elif args and i in args:
                v = args[i]
                if v.k == "sym": self.note_type(v, ty)
            else:
                v = sym(n)
                self.note_type(v, ty)
            if ty.startswith("&mut ") or re.match(r"&'\w+ mut ", ty):
                key = ("arg", n)
                st.store[key] = v
                v = mk("mref", key, ())
            al.append(v)
        for f in assume:
            r = self.assume(st, f)
            if not r: return []
            st = r[0]
        outs = self.run(b, al, st, 0)
        for o in outs: self.classify(o)
        self.npaths += len(outs)
        return outs

    def classify(self, o):
        if o.kind == "panic": o.tag = "panic"; return
        v = o.val
        if is_adt(v, "Err"):
            e = adtf(v, "0")
            if is_adt(e): o.tag = e.a[1]
            else: o.tag = "Err"
        elif is_adt(v, "Ok"): o.tag = "Ok"
        else: o.tag = "value"

    # ---- state helpers
    def note_type(self, v, ty):
        t = ty.lstrip("&").strip()
        if t.startswith("mut "): t = t[4:]
        if t.startswith(("libspecr::Size", "libspecr::Align", "usize", "u64", "u128", "u32", "u8")) and v.k not in ("int", "lin"):
            NONNEG.add(v)
        base = canon(t.split("<")[0])
        if base in terms.ENUMS and v.k != "adt": TERM_ENUM[v] = base

    def assume(self, st, f):
        """states in which f holds (splitting disjunctions)"""
        d = decide(st.facts, f)
        if d is True: return [st]
        if d is False: return []
        if f.k == "and":
            res = []
            for s in self.assume(st, f.a[0]): res += self.assume(s, f.a[1])
            return res
        if f.k == "or":
            res = self.assume(st.copy(), f.a[0])
            for s in self.assume(st.copy(), neg(f.a[0])): res += self.assume(s, f.a[1])
            return res
        st = st.copy()
        if f.k == "not": st.facts[f.a[0]] = False; st.order.append((f.a[0], False))
        else:
            st.facts[f] = True; st.order.append((f, True))
        # conjunctive consequences of existential/any results are added by the models themselves
        return [st]

    def load(self, st, key, path):
        v = st.store.get(key)
        if v is None: v = mk("undef", repr(key)) if key[0] != "arg" else sym(key[1])
        for k in path: v = proj(v, k)
        return v

    def storeto(self, st, key, path, val, loc=None):
        if not path: st.store[key] = val
        else:
            base = st.store.get(key)
            if base is None: base = mk("undef", repr(key)) if key[0] != "arg" else sym(key[1])
            st.store[key] = self.upd_path(base, path, val)
        if key[0] == "arg" or key[0] == "sym":
            st.events.append(("write", key, path, val, loc))

    def upd_path(self, base, path, val):
        if not path: return val
        return update(base, path[0], self.upd_path(proj(base, path[0]), path[1:], val))

    # ---- places
    def place(self, st, fid, pl):
        cur = ("loc", (fid, pl[0]), ())
        var = None
        for el in pl[1:]:
            if el[0] == "*":
                v = self.getcur(st, cur)
                if v.k == "mref": cur = ("loc", v.a[0], v.a[1])
                elif not (cur[0] == "loc" and cur[1][0] == "arg" and cur[2]): cur = ("val", v)   # a (unique) reference inside an argument is like what it points to
                continue
            if el[0] == "v":
                var = el[1]; continue
            if el[0] == "f":
                key = ("vf", var, el[1]) if var is not None else ("f", el[1])
                var = None
            elif el[0] == "i":
                key = ("idx", self.load(st, (fid, el[1]), ()))
            elif el[0] == "ci":
                key = ("idx", intt(el[1]) if not el[2] else mk("fromend", el[1]))
            else:
                key = ("f", "subslice")
            if cur[0] == "loc": cur = ("loc", cur[1], cur[2] + (key,))
            else: cur = ("val", proj(cur[1], key))
        return cur

    def getcur(self, st, cur):
        if cur[0] == "val": return cur[1]
        v = st.store.get(cur[1])
        if v is None: v = mk("undef", repr(cur[1])) if cur[1][0] != "arg" else sym(cur[1][1])
        for i, k in enumerate(cur[2]):
            if v.k == "mref" : v = self.load(st, v.a[0], v.a[1])
            v = proj(v, k)
        return v

    def read(self, st, fid, pl, ty=None):
        return self.getcur(st, self.place(st, fid, pl))

    def write(self, st, fid, pl, val, loc=None):
        cur = self.place(st, fid, pl)
        if cur[0] == "loc": self.storeto(st, cur[1], cur[2], val, loc)
        else:
            # write through an unknown reference: remember it as an event
            st.events.append(("write", ("sym", show(cur[1])), (), val, loc, cur[1]))

    # ---- operands
    def operand(self, st, fid, o, body):
        if "c" in o or "m" in o:
            pl = o.get("c") or o.get("m")
            v = self.read(st, fid, pl)
            if len(pl) == 1: self.note_type(v, body.locals[pl[0]])
            return v
        if "fn" in o:
            n, env = canon(o["res"] or o["fn"]), self.tenv[-1]
            targs = tuple(tsubst(x, env) for x in (o.get("rga") or o.get("ga") or []) if not x.startswith("'"))
            return mk("fn", n, targs) if targs and self.p.fn(n) is not None else mk("fn", n)
        if "promoted" in o:
            b = self.p.bodies.get((canon(o["promoted"]), o["idx"]))
            if b is not None:
                r = self.run(b, [], St(), 0)
                if len(r) == 1 and r[0].kind == "ret": return r[0].val
            return mk("const", "promoted:%s:%s" % (o["promoted"], o["idx"]))
        if "const" in o:
            n = canon(o["res"] or o["const"])
            if n in ("Int::ZERO", "Size::ZERO"): return intt(0)
            if n in ("Int::ONE", "Align::ONE"): return intt(1)
            if o.get("val"):
                v = self.lit(o["val"], o["ty"])
                if v.k != "const": return v
            b = self.p.fn(n)
            if not o["res"] and o.get("ga"): b = None      # of a type parameter: which implementation's it is, is not known here
            if b is not None and b.crate in ("minirust_rs", "miniutil", "minimize", "minirun", "intrinsics"):
                try:
                    r = self.run(b, [], St(), 0)
                except AnalysisError:
                    r = []
                rets = [x for x in r if x.kind == "ret"]
                if len(rets) == 1: return rets[0].val
            v = mk("const", n)
            self.note_type(v, o["ty"])
            return v
        if "static" in o: return sym("static " + canon(o["static"]).rsplit("::", 1)[-1])
        return self.lit(o["lit"], o["ty"])

    def lit(self, s, ty):
        if s.startswith("const "): s = s[6:]
        if s == "()": return UNIT
        if s == "true": return TRUE
        if s == "false": return FALSE
        m = re.match(r"^(-?\d+)_?[iu](?:\d+|size)$", s)
        if m: return intt(int(m.group(1)))
        if re.match(r"^-?\d+$", s): return intt(int(s))
        m = re.match(r"^\d+_u32 is 0\.\.=4294967040 sym:(.+)$", s)
        if m: return mk("const", "symbol:" + m.group(1))
        if s.startswith('"') or s.startswith('b"'): return mk("str", s.strip('b').strip('"'))
        if s.startswith("'"): return mk("str", s)
        return mk("const", s)

    # ---- rvalues
    def rvalue(self, st, fid, r, body, dty):
        k = r[0]
        if k == "use":
            if dty.startswith("&mut ") and ("c" in r[1] or "m" in r[1]):
                pl = r[1].get("c") or r[1].get("m")
                if len(pl) > 1:
                    cur = self.place(st, fid, pl)
                    if cur[0] == "loc" and cur[1][0] == "arg" and cur[2] and self.getcur(st, cur).k != "mref": return mk("mref", cur[1], cur[2])
            return self.operand(st, fid, r[1], body)
        if k == "ref":
            cur = self.place(st, fid, r[2])
            if r[1] and cur[0] == "loc":
                v = self.getcur(st, cur)
                # &mut of something that is itself reached through a reference keeps pointing at the original
                return mk("mref", cur[1], cur[2])
            v = self.getcur(st, cur)
            return v
        if k == "adt":
            path = canon(r[1])
            ops = [self.operand(st, fid, o, body) for o in r[4]]
            return self.rebuilt(st, fid, body, r, ops) or adt(path, r[2], tuple(zip(r[3], ops)))
        if k == "tuple":
            return mk("tuple", tuple(self.operand(st, fid, o, body) for o in r[1]))
        if k == "array":
            return mk("array", tuple(self.operand(st, fid, o, body) for o in r[1]))
        if k == "closure":
            self.cenv[canon(r[1])] = self.tenv[-1]
            return mk("closure", canon(r[1]), tuple(self.operand(st, fid, o, body) for o in r[2]))
        if k == "discr":
            v = self.read(st, fid, r[1])
            p = canon(r[2])
            if v.k != "adt" and p in terms.ENUMS: TERM_ENUM[v] = p
            return mk("discr", v, p)
        if k == "cast":
            v = self.operand(st, fid, r[2], body)
            if str(r[1]).startswith("IntToInt"): return narrow(v, self.opty(r[2], body), r[3])
            return v
        if k == "bin":
            a = self.operand(st, fid, r[2], body); b = self.operand(st, fid, r[3], body)
            return self.binop(r[1], a, b)
        if k == "un":
            v = self.operand(st, fid, r[2], body)
            if r[1] == "Not": return neg(v) if self.isbool(v) or dty == "bool" else mk("call", "bitnot", (v,))
            if r[1] == "Neg": return scale(v, -1)
            if r[1] == "PtrMetadata": return sys.modules["models"].length(v)
            return mk("call", r[1], (v,))
        if k == "repeat": return mk("repeat", self.operand(st, fid, r[1], body), mk("const", r[2]))
        return mk("const", str(r)[:80])

    def rebuilt(self, st, fid, body, r, ops):
        """a struct built from at least half the fields of another value of that struct: that value with the others changed"""
        if len(r[3]) < 3: return None
        froms = {}
        for n, o in zip(r[3], r[4]):
            pl = body.origin(o.get("c") or o.get("m"))
            if pl and len(pl) == 2 and pl[1][0] == "f" and pl[1][1] == n and canon(body.locals[pl[0]]).split("<")[0] == canon(r[1]):
                froms.setdefault(pl[0], []).append(n)
        for l, ns in froms.items():
            base = self.read(st, fid, [l])
            if 2 * len(ns) < len(r[3]) or base.k == "adt": continue
            if any(proj(base, ("f", n)) is not ops[r[3].index(n)] for n in ns): continue
            for n, v in zip(r[3], ops): base = update(base, ("f", n), v)
            return base
        return None

    def isbool(self, v): return v.k in ("bool", "not", "and", "or", "is", "ge0", "eq0", "any")

    def binop(self, op, a, b):
        if op in ("Add", "AddUnchecked"): return add(a, b)
        if op in ("Sub", "SubUnchecked"): return sub(a, b)
        if op in ("Mul", "MulUnchecked"): return mul(a, b)
        if op.endswith("WithOverflow"): return tup(self.binop(op[:-12], a, b), FALSE)
        if op == "Eq": return self.eqf(a, b)
        if op == "Ne": return neg(self.eqf(a, b))
        if op == "Lt": return lt(a, b)
        if op == "Le": return le(a, b)
        if op == "Gt": return gt(a, b)
        if op == "Ge": return ge(a, b)
        if op == "BitAnd" and (self.isbool(a) or self.isbool(b)): return conj(a, b)
        if op == "BitOr" and (self.isbool(a) or self.isbool(b)): return disj(a, b)
        return mk("call", op, (a, b))

    def eqf(self, a, b):
        if a.k == "discr" and b.k == "discr": return eq(a.a[0], b.a[0])
        return eq(a, b)

    # ---- execution
    def run(self, body, args, st, depth, targs=None):
        st.nf += 1
        fid = st.nf
        for i, a in enumerate(args): st.store[(fid, i + 1)] = a
        self.stack.append(body.name)
        if "{closure" in body.name: self.tenv.append(self.cenv.get(body.name, {}))
        else: self.tenv.append({g: t for g, t in zip(body.gen, targs or ()) if g != t} if targs and len(targs) == len(body.gen) else {})
        try:
            outs = self.explore(body, fid, 0, st, depth, frozenset(), None)
        finally:
            self.stack.pop(); self.tenv.pop()
        for o in outs:
            if o.kind == "ret":
                # drop the frame's locals (kept if a reference to them might escape: closures run inside the frame only)
                pass
        return outs

    def explore(self, body, fid, bb, st, depth, active, within, skiphead=False):
        """all outcomes from block bb; `active` = loop heads being summarised; `within` = stay inside these blocks"""
        res = []
        work = [(bb, st, skiphead)]
        while work:
            bb, st, skip = work.pop()
            self.steps += 1
            if self.steps > self.limit: raise AnalysisError("step limit in %s" % body.name)
            if within is not None and bb not in within:
                res.append(Out("exit", bb, st)); continue
            if not skip:
                if bb in active:
                    res.append(Out("back", bb, st)); continue
                if bb in body.loops:
                    for o in self.loop(body, fid, bb, st, depth, active):
                        if o.kind == "exit": work.append((o.val, o.st, False))
                        else: res.append(o)
                    continue
            blk = body.blocks[bb]
            for pl, rv, sp in blk["s"]:
                if rv[0] == "setdiscr": continue
                v = self.rvalue(st, fid, rv, body, body.locals[pl[0]] if len(pl) == 1 else "")
                if len(pl) == 1: self.note_type(v, body.locals[pl[0]])
                self.write(st, fid, pl, v, sp)
            t = blk["t"]
            k = t[0]
            if k == "goto": work.append((t[1], st, False))
            elif k == "drop":
                x = self.operand(st, fid, {"m": t[1]}, body)
                self.unlock(st, x, blk["sp"])
                work.append((t[2], st, False))
            elif k == "ret":
                res.append(Out("ret", self.load(st, (fid, 0), ()), st, blk["sp"]))
            elif k == "unreachable" or k == "unwind": pass
            elif k == "assert": work.append((t[4], st, False))
            elif k == "switch":
                for nb, s in self.switch(st, fid, t, body): work.append((nb, s, False))
            elif k == "call":
                for o in self.call(st, fid, t, body, blk["sp"], depth):
                    if o.kind == "ret":
                        if t[4] is None: continue
                        s = o.st
                        if len(t[3]) == 1: self.note_type(o.val, body.locals[t[3][0]])
                        self.write(s, fid, t[3], o.val, blk["sp"])
                        work.append((t[4], s, False))
                    else: res.append(o)
            else:
                raise AnalysisError("terminator %s in %s" % (k, body.name))
        return res

    def switch(self, st, fid, t, body):
        v = self.operand(st, fid, t[1], body)
        res = []
        if v.k == "discr":
            x, path = v.a
            names = self.p.discr.get(path, {})
            listed = []
            for val, nb in t[2]:
                V = names.get(val)
                if V is None: continue
                listed.append(V)
                if x.k == "adt":
                    if x.a[1] == V: res.append((nb, st))
                else:
                    for s in self.assume(st.copy(), isv(x, V)): res.append((nb, s))
            rest = [w for w in names.values() if w not in listed]
            if x.k == "adt":
                if x.a[1] in rest: res.append((t[3], st))
            elif rest:
                if len(rest) == 1:
                    for s in self.assume(st.copy(), isv(x, rest[0])): res.append((t[3], s))
                else:
                    s = st.copy()
                    ss = [s]
                    for w in listed:
                        ss = [y for z in ss for y in self.assume(z, neg(isv(x, w)))]
                    res += [(t[3], z) for z in ss]
            return res
        if t[4] == "bool" or self.isbool(v):
            for val, nb in t[2]:
                f = neg(v) if val == "0" else v
                for s in self.assume(st.copy(), f): res.append((nb, s))
            if len(t[2]) == 1:
                f = v if t[2][0][0] == "0" else neg(v)
                for s in self.assume(st.copy(), f): res.append((t[3], s))
            return res
        ss = [st.copy()]
        for val, nb in t[2]:
            f = eq(v, intt(int(val)))
            for s in self.assume(st.copy(), f): res.append((nb, s))
            ss = [y for z in ss for y in self.assume(z, neg(f))]
        res += [(t[3], z) for z in ss]
        return res

    # ---- mutexes: a guard is a reference to the protected value; dropping it ends the critical section
    def unlock(self, st, x, sp):
        for m in sorted({m.a[0][1] for m in subterms(x) if m.k == "mref" and str(m.a[0][1]).startswith("static ")} if isinstance(x, T) else ()): st.events.append(("unlock", m, sp))

    # ---- loops
    def literal_loop(self, body, fid, h, st):
        """the cell of the iterator over a short literal list that drives this loop, if any"""
        key = body.drivers.get(h)
        if key is None:
            key = body.drivers[h] = ()
            b = h
            for _ in range(4):        # the call of next() follows the head
                t = body.blocks[b]["t"]
                if t[0] == "goto": b = t[1]; continue
                if t[0] != "call" or not str(t[1].get("fn") if isinstance(t[1], dict) else "").endswith("Iterator::next"): break
                o = t[2][0].get("m") or t[2][0].get("c")
                for pl, rv, _ in reversed(body.blocks[b]["s"]):
                    if o and pl == o and rv[0] == "ref":
                        if len(rv[2]) == 1: key = body.drivers[h] = (rv[2][0],)
                        elif len(rv[2]) == 2 and rv[2][1] in ("*", ["*"]): o = [rv[2][0]]; continue
                        break
                break
        if not key: return None
        v = st.store.get((fid, key[0]))
        if v is not None and v.k == "array" and len(v.a[0]) <= 32: return (fid, key[0])
        return None

    def unroll(self, body, fid, h, st, depth, active, cell):
        blocks = body.loops[h]
        res, work = [], [st]
        self.concrete.append(cell)
        try:
            while work:
                s = work.pop()
                for o in self.explore(body, fid, h, s, depth, active | {h}, blocks, skiphead=True):
                    if o.kind == "back" and o.val == h: work.append(o.st)
                    else: res.append(o)
        finally: self.concrete.pop()
        return res

    def loop(self, body, fid, h, st, depth, active):
        blocks = body.loops[h]
        cell = self.literal_loop(body, fid, h, st)
        if cell is not None: return self.unroll(body, fid, h, st, depth, active, cell)
        hav = {}
        for it in range(6):
            s1 = st.copy()
            for key, val in hav.items(): s1.store[key] = val
            n0, e0 = len(s1.order), len(s1.events)
            snap = dict(s1.store)
            outs = self.explore(body, fid, h, s1.copy(), depth, active | {h}, blocks, skiphead=True)
            backs = [o for o in outs if o.kind == "back" and o.val == h]
            changed = self.widen(snap, [b.st.store for b in backs], "%s:%d" % (body.name, h), hav)
            if not changed: break
        else:
            raise AnalysisError("loop in %s does not stabilise" % body.name)
        alts = tuple((tuple(o.st.order[n0:]), tuple(o.st.events[e0:])) for o in backs)
        steps = tuple(tuple((lv, b.st.store.get(key, lv)) for key, lv in hav.items()) for b in backs)   # the loop-carried cells after each alternative
        res = []
        for o in outs:
            if o.kind == "back" and o.val == h: continue
            if o.kind == "exit":
                ends = [e for e in o.st.events[e0:] if e[0] == "loopend"]
                for e in ends[-1:]:
                    self.add_forall(o.st, e[1], e[2], alts, steps)
                    self.accumulators(o.st, e[1], e[2], hav, backs, n0)
                    self.carried(o.st, e[1], e[2], hav, backs, n0)
                if not ends:
                    for lv, lo, hi in self.counters(hav, backs, o, n0):
                        self.add_forall(o.st, adt("Range", "Range", (("start", lo), ("end", hi))), lv, alts, steps)
                    o.st.events.append(("while", mk("sym", "while"), UNIT, alts, steps, e0))
            res.append(o)
        return res

    def accumulators(self, st, src, el, hav, backs, n0):
        """a collection that every iteration extends by one element is the image of the iterated source"""
        m = {}
        cells = leaves(hav) if backs else []
        import models
        pos = {}
        for lv, get in cells:   # what grows by the same number every time is a count of the elements seen
            ds = {diff_const(get(b.st.store), lv) if lv.k == "loopvar" else None for b in backs}
            if len(ds) == 1 and None not in ds and ds != {0} and models.ordered(src):
                (d,) = ds
                pos[lv] = add(lv.a[1], scale(models.position(src.a[0] if src.k == "enum" else src, 0), d))
                m[lv] = add(lv.a[1], scale(models.length(src), d))
        for lv, get in cells:
            if lv in m: continue
            base = lv.a[1]
            if base.k == "array" and not base.a[0]: kind = "push"
            elif base.k == "empty": kind = "minsert" if base.a[0] == "Map" else "sinsert"
            elif base.k == "const" and base.a[0].startswith("default"): kind = None
            else: kind = None
            vals = []
            for b in backs:
                v = get(b.st.store)
                if pos and v is not lv: v = subst(v, pos)
                if v is lv: vals.append((b, None)); continue
                if v.k == "txt" and kind in (None, "txt") and v.a[0][0] is lv and not any(contains(x, lv) for x in v.a[0][1:]):
                    kind = "txt"; vals.append((b, text(v.a[0][1:]))); continue
                if kind is None and v.k != "upd": kind = v.k
                if kind == "push" and v.k == "concat": kind = "concat"
                if kind is None or kind == "upd":
                    x = self.slot(v, lv, src, el)
                    if x is not None and base.k != "const":
                        kind = "upd"; vals.append((b, x)); continue
                if v.k != kind or kind not in ("push", "minsert", "sinsert", "concat") or v.a[0] is not lv: break
                x = tup(v.a[1], v.a[2]) if kind == "minsert" else v.a[1]
                if contains(x, lv): break
                vals.append((b, x))
            else:
                cond = lambda b: tuple((x if v else neg(x)) for x, v in b.st.order[n0:] if not contains(x, lv))
                if kind == "upd":
                    import models
                    en = mk("enum", base)
                    ee = models.element(en, 0)
                    here = {el: ee.a[0][0], mk("idx", base, el): ee.a[0][1]}
                    at = {mk("idx", lv, el): mk("idx", base, el)}      # an iteration touches its own element only
                    vs = [(tuple(subst(c, here) for c in (subst(x if v else neg(x), at) for x, v in b.st.order[n0:]) if not contains(c, lv)), subst(subst(x, {mk("idx", lv, el): ee.a[0][1]}), here) if x is not None else ee.a[0][1]) for b, x in vals]
                    if not any(contains(x, lv) for _, x in vs): m[lv] = mk("maplist", en, ee, vs[0][1] if len({x for _, x in vs}) == 1 else mk("choice", tuple(vs)))
                    continue
                if kind == "txt":
                    vals = [(b, mk("str", "") if x is None else x) for b, x in vals]
                    body = (vals[0][1] if len({x for _, x in vals}) == 1 else mk("choice", tuple((cond(b), x) for b, x in vals)))
                    m[lv] = text((base, models.joined(models.numbered(src, el, body), mk("str", ""))))
                    continue
                xs = []
                for b, x in vals:
                    if x not in xs: xs.append(x)
                if len(xs) > 1 and any(cond(b) == cond(b2) and x is not y for i, (b, x) in enumerate(vals) for b2, y in vals[:i]): continue     # told apart only by what earlier iterations left
                if None not in xs:
                    body = xs[0] if len(xs) == 1 else mk("choice", tuple((cond(b), x) for b, x in vals))
                    r = models.numbered(src, el, body)
                    if kind == "concat": r = mk("call", "Iterator::flat_map", (src, body if len(xs) > 1 else mk("choice", ((cond(vals[0][0]), body),))))
                elif xs == [None] or kind == "concat": continue
                else:
                    r = mk("call", "Iterator::filter_map", (src, mk("choice", tuple((cond(b), NONE if x is None else some(x)) for b, x in vals))))
                if base.k != "empty" and not (base.k == "array" and not base.a[0]) and base.k != "const": r = mk("concat", base, r)
                m[lv] = r
        if m:
            for k, v in list(st.store.items()):
                if isinstance(v, T) and any(contains(v, lv) for lv in m): st.store[k] = subst(v, m)

    def slot(self, v, lv, src, el):
        """x if v is lv with its el-th element replaced by x, for el counting over all of lv"""
        if v.k != "upd" or v.a[0] is not lv or v.a[1] != ("idx", el): return None
        import models
        if src.k == "adt" and src.a[0] == "Range" and adtf(src, "start") is intt(0) and adtf(src, "end") in (models.length(lv), models.length(lv.a[1])): return v.a[2]
        return None

    def carried(self, st, src, el, hav, backs, n0):
        """what is left in the other cells an iteration rewrites: the result of folding the iteration over the source"""
        live = {lv for v in st.store.values() if isinstance(v, T) for lv in subterms(v) if lv.k == "loopvar"}
        cells = {}
        for lv, get in leaves(hav) if backs else []:
            if lv.k == "loopvar" and lv in live:
                vals = [get(b.st.store) for b in backs]
                root = lv.a[1]
                while root.k == "f": root = root.a[0]
                if root.k in ("sym", "after") and not changes(lv, vals): continue
                if all(v is not None for v in vals): cells[lv] = (lv.a[1], vals)
        if not cells or not backs: return
        conds = [[(x if v else neg(x)) for x, v in b.st.order[n0:]] for b in backs]
        m = {lv: fold_of(lv, cells, src, el, conds) for lv in cells}
        for k, v in list(st.store.items()):
            if isinstance(v, T) and any(contains(v, lv) for lv in m): st.store[k] = subst(v, m)

    def counters(self, hav, backs, o, n0):
        """counting loops: a variable widened from `lo`, increased by one on every back edge, leaving when it reaches `hi`"""
        res = []
        for key, lv in hav.items():
            if lv.k != "loopvar" or not backs: continue
            if not all(diff_const(b.st.store.get(key, lv), lv) == 1 for b in backs): continue
            for f, v in o.st.order[n0:]:
                if f.k == "ge0":
                    g = f.a[0] if not v else scale(f.a[0], -1)
                    c, d = to_lin(g)
                    if d.get(lv) == -1:
                        # not (hi - lv - 1 >= 0), i.e. lv >= hi
                        hi = add(add(g, lv), intt(1)) if not v else add(g, lv)
                        if not contains(hi, lv): res.append((lv, lv.a[1], hi))
                elif f.k == "eq0" and v:
                    c, d = to_lin(f.a[0])
                    if d.get(lv) in (1, -1):
                        g = scale(f.a[0], -d[lv])
                        hi = add(g, lv)
                        if not contains(hi, lv): res.append((lv, lv.a[1], hi))
        return res

    def add_forall(self, st, src, el, alts, steps=()):
        st.events.append(("loop", src, el, alts, steps))
        self.elementwise(st, src, el, alts)
        f = mk("forall", src, el, tuple(sorted((tuple((x if v else neg(x)) for x, v in fs) for fs, _ in alts), key=lambda a: [x.id for x in a])))
        if f not in st.facts:
            st.facts[f] = True
            st.order.append((f, True))

    def elementwise(self, st, src, el, alts):
        """what a loop over the mutable elements of a collection leaves there"""
        base, x = (src.a[0], el.a[0][1]) if src.k == "enum" and el.k == "tuple" else (src, el)
        ref = st.store.get(("itermut", base))
        if ref is None: return
        vals = []
        for fs, evs in alts:
            v = x
            for ev in evs:
                if ev[0] == "write" and len(ev) > 5 and ev[5] is x: v = ev[3]
            vals.append((tuple((c if b else neg(c)) for c, b in fs), v))
        del st.store[("itermut", base)]
        if all(v is x for _, v in vals): return
        v = vals[0][1] if len({v for _, v in vals}) == 1 else mk("choice", tuple(vals))
        new = mk("maplist", src, el, v)
        if not ref.a[1]: st.store[ref.a[0]] = new
        else: st.store[ref.a[0]] = self.upd_path(st.store.get(ref.a[0]) or sym(ref.a[0][1]), ref.a[1], new)

    def widen(self, snap, stores, tag, hav):
        changed = False
        for s in stores:
            for key, v in s.items():
                old = snap.get(key)
                if old is None: continue
                if v is old: continue
                base = hav.get(key, old)
                nv = self.widen_term(old, v, tag + repr(key[1] if key[0] == "arg" else key[1]))
                if hav.get(key) is not nv:
                    if nv is not old:
                        hav[key] = nv
                        changed = True
        return changed

    def widen_term(self, old, new, tag):
        if old is new: return old
        if new.k == "loopvar" and new.a[0] == tag: return new
        if old.k in ("loopvar", "lvl") and old.a[0] == tag: return old
        if old.k == "adt" and new.k == "adt" and old.a[:2] == new.a[:2]:
            return adt(old.a[0], old.a[1], tuple((n, self.widen_term(a, b, tag + "." + n)) for (n, a), (m, b) in zip(old.a[2], new.a[2])))
        if old.k == "tuple" and new.k == "tuple" and len(old.a[0]) == len(new.a[0]):
            return mk("tuple", tuple(self.widen_term(a, b, tag + "." + str(i)) for i, (a, b) in enumerate(zip(old.a[0], new.a[0]))))
        keys = []
        b = new
        while b.k == "upd" and b is not old:
            keys.append(b.a[1]); b = b.a[0]
        if b is old and keys:
            r = old
            for key in keys:
                if key[0] == "idx": return mk("lvl", tag, old)
                pn = proj(new, key); po = proj(old, key)
                r = update(r, key, self.widen_term(po, pn, tag + "." + str(key[-1])))
            return r
        if old.k == "upd" and new.k == "upd":
            ko, kn = set(), set(); bo = old
            while bo.k == "upd": ko.add(bo.a[1]); bo = bo.a[0]
            bn = new
            while bn.k == "upd": kn.add(bn.a[1]); bn = bn.a[0]
            if bo is bn and not any(k[0] == "idx" for k in ko | kn):
                r = old
                for key in sorted(ko | kn, key=repr):
                    r = update(r, key, self.widen_term(proj(old, key), proj(new, key), tag + "." + str(key[-1])))
                return r
        while old.k == "loopvar" and len(old.a) > 1 and old.a[0] != tag and False: pass
        return mk("loopvar", tag, old)

    # ---- calls
    def call(self, st, fid, t, body, sp, depth):
        f, argops, dest, target = t[1], t[2], t[3], t[4]
        args = [self.operand(st, fid, a, body) for a in argops]
        dty = body.locals[dest[0]] if len(dest) == 1 else "?"
        if "fn" not in f:
            fv = self.operand(st, fid, f, body)
            return self.apply(st, fv, args, sp, depth, dty)
        tname = canon(f["fn"]); res = canon(f["res"]) if f["res"] else None
        env = self.tenv[-1]
        targs = [tsubst(x, env) for x in (f.get("rga") or f["ga"])]
        if res is None and f["tr"] is not None and targs:
            m = "<%s as %s>::%s" % (canon(targs[0]), canon(f["tr"]).split("<")[0], tname.rsplit("::", 1)[-1])
            if self.p.fn(m) is not None: res = m; targs = targs[1:]
        name = res or tname
        if target is None:
            return [self.panic(st, name, args, sp)]
        import models
        m = models.MODELS.get(tname) or (models.MODELS.get(res) if res else None)
        if tname == "Into::into" and len(targs) == 2:
            own = self.p.conversions().get((bare(targs[0]), bare(targs[1])))
            if own: name = res = own; tname = "From::from"
        if tname in OWN and res and self.p.fn(res) is not None and not self.p.fn(res).derived: m = None   # written out in this repository
        if m is not None:
            r = m(self, st, args, dict(name=name, tname=tname, res=res, dty=dty, sp=sp, depth=depth, ga=targs if not f.get("rga") else [tsubst(x, env) for x in f["ga"]], argty=[self.opty(a, body) for a in argops]))
            if isinstance(r, T): return [Out("ret", r, st)]
            if r is not None: return r
        return self.callfn(st, name, args, sp, depth, dty, unresolved=(f["tr"] is not None and res is None), argops=argops, body=body, targs=targs)

    def opty(self, o, body):
        pl = o.get("c") or o.get("m")
        if pl and len(pl) == 1: return body.locals[pl[0]]
        return o.get("ty", "?")

    def callfn(self, st, name, args, sp, depth, dty, unresolved=False, argops=None, body=None, targs=None):
        b = None if unresolved else self.p.fn(name)
        if b is not None and name not in self.opaque and not (name in self.unless_known and args and self.not_built(st, args[0])) and depth < self.depth and self.stack.count(name) == 0 \
                and (self.inline_only is None or name in self.inline_only):
            self.inlined.add(name)
            return self.run(b, args, st, depth + 1, targs)
        import tool
        if targs and name.rsplit("::", 1)[-1] in tool.GENERIC: args = list(args) + [mk("sym", canon(t)) for t in targs if not t.startswith("'")]
        if not args and targs: args = [mk("sym", t) for t in targs]
        return self.opaque_call(st, name, args, sp, dty)

    def not_built(self, st, t):
        while t.k in ("ref", "mref"): t = self.load(st, t.a[0]) if t.k == "mref" else t.a[0]
        return t.k not in ("adt", "lit", "ite")

    def opaque_call(self, st, name, args, sp, dty):
        mrefs = [a for a in args if a.k == "mref"]
        # a closure that captures mutable references may write through them
        for a in args:
            if a.k == "closure": mrefs += [c for c in a.a[1] if c.k == "mref"]
        snap = tuple(self.load(st, a.a[0], a.a[1]) if a.k == "mref" else self.lam(st, a) if a.k == "closure" else a for a in args)
        if mrefs:
            n = st.cnt.get(name, 0); st.cnt[name] = n + 1
            r = mk("eff", name, snap, n)
        else:
            r = mk("call", name, snap)
        self.note_type(r, dty)
        st.events.append(("call", name, snap, r, sp, tuple(args)))
        if dty == "()": r = UNIT
        for a in mrefs:
            old = self.load(st, a.a[0], a.a[1])
            import tool
            nv = mk("after", name, st.cnt.get(name, 0), old)
            if name.rsplit("::", 1)[-1] in tool.SHOWN: nv = mk("after", name, 0, old, tuple(x for x, y in zip(snap, args) if y is not a))
            if not a.a[1]: st.store[a.a[0]] = nv
            else: st.store[a.a[0]] = self.upd_path(st.store.get(a.a[0]) or sym(a.a[0][1]), a.a[1], nv)
        return [Out("ret", r, st)]

    def lam(self, st, fv):
        """what a closure handed to an opaque function does: its result, and what it makes of the variables it captures, for symbolic arguments"""
        import tool
        b = self.p.fn(fv.a[0])
        if not tool.LAMBDAS or b is None or self.stack.count(fv.a[0]): return fv
        k = self.lamdepth = getattr(self, "lamdepth", 0) + 1
        try:
            ps = tuple(sym("x%d" % (i + (0 if k == 1 else 10 * (k - 1)))) for i in range(b.argc - 1))
            for p, i in zip(ps, range(2, b.argc + 1)): self.note_type(p, b.locals[i])
            s = st.copy()
            cells = [c for c in fv.a[1] if c.k == "mref"]
            alts = []
            for o in self.run(b, [fv] + list(ps), s, 1):
                if o.kind == "panic": continue
                v = o.val
                for c in cells:
                    old, new = self.load(st, c.a[0], c.a[1]), self.load(o.st, c.a[0], c.a[1])
                    if old is not new: v = mk("tuple", (v, mk("call", "now", (new,))))
                cs = tuple(f if x else neg(f) for f, x in o.st.facts.items() if f not in st.facts and f.k != "forall")
                alts.append((cs, tool.reduce(o.st.facts, v)))
            if not alts: return fv
            return mk("lam", ps, tool.canon_choice(st.facts, alts))
        finally: self.lamdepth -= 1

    def apply(self, st, fv, args, sp, depth, dty="?"):
        """call a function value with the given (already untupled) arguments"""
        if fv.k == "mref":
            fv2 = self.load(st, fv.a[0], fv.a[1])
            if fv2.k in ("closure", "fn"): fv = fv2
            elif fv2.k == "sym": return self.opaque_call(st, "apply:" + fv2.a[0], [fv] + list(args), sp, dty)
        if fv.k == "closure":
            b = self.p.fn(fv.a[0])
            if b is not None and depth < self.depth and self.stack.count(fv.a[0]) == 0:
                return self.run(b, [fv] + list(args), st, depth + 1)
        if fv.k == "fn":
            import models
            m, tn = models.MODELS.get(fv.a[0]), fv.a[0]
            if m is None and tn.startswith("<") and " as " in tn and (self.p.fn(tn) is None or self.p.fn(tn).derived):
                tn = re.sub(r"<.*$", "", tn.split(" as ", 1)[1].rsplit(">::", 1)[0]).rsplit("::", 1)[-1] + "::" + tn.rsplit("::", 1)[-1]
                m = models.MODELS.get(tn)
            if m is not None:
                r = m(self, st, list(args), dict(name=fv.a[0], tname=tn, res=None, dty=dty, sp=sp, depth=depth, ga=[], argty=["?"] * len(args)))
                if isinstance(r, T): return [Out("ret", r, st)]
                if r is not None: return r
            if fv.a[0].split("::")[-1][:1].isupper():
                parts = fv.a[0].split("::")
                pth = "::".join(parts[:-1])
                if pth in self.p.adts or len(parts) == 1 or pth in ("Option", "Result"):
                    return [Out("ret", adt(pth if pth else parts[-1], parts[-1], tuple((str(i), a) for i, a in enumerate(args))), st)]
            return self.callfn(st, fv.a[0], list(args), sp, depth, dty, targs=list(fv.a[1]) if len(fv.a) > 1 else None)
        return self.opaque_call(st, "apply:" + show(fv)[:60], [fv] + list(args), sp, dty)

    def panic(self, st, name, args, sp):
        msg = ""
        for a in args:
            for s in subterms(a):
                if s.k == "str": msg = s.a[0]; break
        o = Out("panic", mk("panic", name, msg), st, sp)
        o.tag = "panic"
        o.halt = (name, tuple(args))
        return o

    # ---- combinators with closures over a representative element
    def each(self, st, src, el, call, sp, tag):
        """run `call(state, elem)` for a representative element; returns (outs, n0, e0, base state) after widening"""
        hav = {}
        for it in range(6):
            s1 = st.copy()
            for key, val in hav.items(): s1.store[key] = val
            snap = dict(s1.store)
            n0, e0 = len(s1.order), len(s1.events)
            outs = call(s1.copy(), el)
            changed = self.widen(snap, [o.st.store for o in outs if o.kind == "ret"], tag, hav)
            if not changed:
                rets = [o for o in outs if o.kind == "ret"]
                self.accumulators(s1, src, el, hav, rets, n0)
                self.carried(s1, src, el, hav, rets, n0)
                return outs, n0, e0, s1
        raise AnalysisError("closure over list does not stabilise")

    def new_elem(self, st, src):
        n = st.elems.get(src, 0)
        return n
