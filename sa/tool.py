"""Decision tables over the tooling crates: for each case of the input, the exact value built (modulo evaluation order and helper structure)."""
from terms import *
from terms import show as raw
from rule import holds, fdict, expand
from expr import E
import terms
from engine import TERM_ENUM, prefixes

# how calls are shown: last name -> (short name, indices of the arguments that matter); set by a rule before it shows anything
ABBR = {}
TEXT = []          # textual abbreviations (long, short), applied to whole results
ALL = ("minirust-rs", "miniutil", "minimize", "minirun")
_c = {}


EMBED = set()      # fields of self that hold the context all of self's methods share


def cshow(t):
    """canonical text of a term: effect instances and the states between effects are erased (order of evaluation is not part of the value)"""
    r = _c.get(t)
    if r is None: r = _c[t] = _cs(t)
    return r


def eta(t):
    """(x.0, x.1) -> x, S{a: x.a, b: x.b} -> x"""
    if t.k == "tuple" and len(t.a[0]) > 1:
        xs = [eta(x) for x in t.a[0]]
        if all(x.k == "f" and x.a[1] == str(i) and x.a[0] is xs[0].a[0] for i, x in enumerate(xs)): return xs[0].a[0]
    if t.k == "adt" and t.a[0] not in ENUMS and len(t.a[2]) > 1:
        xs = [(n, eta(v)) for n, v in t.a[2]]
        if all(v.k == "f" and v.a[1] == n and v.a[0] is xs[0][1].a[0] for n, v in xs): return xs[0][1].a[0]
    return t


def atom(l):
    """(the condition of a literal in its canonical polarity, whether the literal asserts it)"""
    if l.k == "not":
        a, b = atom(l.a[0])
        return a, not b
    if l.k == "ge0":
        n = neg(l)
        return (l, True) if cshow(l) <= cshow(n) else (n, False)
    if l.k == "is" and l.a[1] in ("None", "Err", "Break") and twofold(l.a[0]):       # of two variants, one names the case
        return isv(l.a[0], {"None": "Some", "Err": "Ok", "Break": "Continue"}[l.a[1]]), False
    return l, True


def side(l):
    """of x >= 0 and -x-1 >= 0, one names the condition and the other is its negation"""
    if l.k == "not":
        a, b = side(l.a[0])
        return a, not b
    if l.k == "ge0":
        n = ge0(sub(intt(-1), l.a[0]))
        return (l, True) if cshow(l) <= cshow(n) else (n, False)
    return atom(l)


def twofold(t):
    """is there no other variant a value may be (None of an Option, rather than of an enum of the repository)"""
    p = TERM_ENUM.get(t)
    return p not in terms.ENUMS or len(terms.ENUMS[p]) <= 2


def canon_choice(facts, alts):
    """a choice between values does not depend on the order in which its conditions were tested: the alternatives of the reduced decision tree
    over the conditions in a fixed order, with the structure all values share pulled out"""
    vals = list(dict.fromkeys(v for _, v in alts))
    if len(vals) == 1: return vals[0]
    if all(v.k == "adt" for v in vals) and len({(v.a[0], v.a[1], tuple(n for n, _ in v.a[2])) for v in vals}) == 1 and vals[0].a[2]:
        f = vals[0].a
        return adt(f[0], f[1], tuple((n, canon_choice(facts, [(cs, v.a[2][i][1]) for cs, v in alts])) for i, (n, _) in enumerate(f[2])))
    if all(v.k == "tuple" for v in vals) and len({len(v.a[0]) for v in vals}) == 1 and vals[0].a[0]:
        return tup(*(canon_choice(facts, [(cs, v.a[0][i]) for cs, v in alts]) for i in range(len(vals[0].a[0]))))
    if all(v.k == "array" for v in vals) and len({len(v.a[0]) for v in vals}) == 1 and vals[0].a[0]:
        return mk("array", tuple(canon_choice(facts, [(cs, v.a[0][i]) for cs, v in alts]) for i in range(len(vals[0].a[0]))))
    atoms = sorted({side(l)[0] for cs, _ in alts for l in cs}, key=lambda a: (a.k != "is", cshow(a)))
    if len(atoms) > 14 or len(alts) > 200:
        return mk("choice", tuple(sorted(alts, key=lambda a: (cshow(a[1]), [cshow(c) for c in a[0]]))))

    def tree(fs, alts):
        """a value, None (impossible), or (atom, yes, no)"""
        live = []
        for cs, v in alts:
            rest = []
            for l in cs:
                r = holds(fs, l)
                if r is None:
                    a, pos = side(l)
                    if a in fs: r = fs[a] == pos
                if r is False: break
                if r is None: rest.append(l)
            else: live.append((tuple(rest), v))
        if not live: return None
        if all(v is live[0][1] for _, v in live): return live[0][1]
        for cs, v in live:
            if not cs: return v
        have = {side(l)[0] for cs, _ in live for l in cs}
        best = None
        for a in ([x for x in atoms if x in have] if len(atoms) <= 6 else [next(x for x in atoms if x in have)]):
            y, n = tree(fs | {a: True}, live), tree(fs | {a: False}, live)
            r = n if y is None or y == n else y if n is None else (a, y, n)
            if best is None or size(r) < size(best): best = r
            if not isinstance(best, tuple): break
        return best
    size = lambda t: 1 + size(t[1]) + size(t[2]) if isinstance(t, tuple) else 0
    out = []

    def flat(t, path):
        if isinstance(t, tuple):
            flat(t[1], path + [t[0]]); flat(t[2], path + [neg(t[0])])
        else: out.append((tuple(path), t))
    flat(tree(dict(facts), alts), [])
    if len(out) == 1: return out[0][1]
    return mk("choice", tuple(out))


def reduce(facts, t):
    """under the facts of a path: choices that are decided are resolved, maps over literal lists are unrolled"""
    memo = {}

    def alive(cs):
        out = []
        for g in cs:
            r = holds(facts, g)
            if r is False: return None
            if r is True: continue
            h = g.a[0] if g.k == "ge0" else None
            if h is not None and any(x.k == "elem" and x.a[0].k == "adt" and x.a[0].a[0] == "Range" and
                                     (h is x or h is sub(sub(adtf(x.a[0], "end"), x), intt(1))) for x in subterms(h)): continue
            out.append(g)
        return out

    def go(x):
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        if not isinstance(x, T): return x
        if x not in memo: memo[x] = step(x)
        return memo[x]

    def step(x):
        if x.k in ("sym", "int", "bool", "str", "const"): return x
        if x.k in ("eq0", "ge0", "is", "not"):
            r = holds(facts, x)
            if r is not None: return boolt(r)
        if x.k == "choice":
            alts = []
            for cs, v in x.a[0]:
                cs = alive(cs)
                if cs is not None: alts.append((tuple(sorted((go(c) for c in cs), key=cshow)), go(v)))
            return canon_choice(facts, alts)
        if x.k == "maplist":
            src, el, body = x.a
            while src.k == "maplist" and src.a[2] is el: src, el = src.a[:2]
            src = go(src)
            base = src.a[0] if src.k == "enum" else src
            if base.k == "array":
                r = []
                for i, y in enumerate(base.a[0]):
                    b = subst(body, {el: mk("tuple", (intt(i), y))} if src.k == "enum" and el.k != "tuple" else {el.a[0][0]: intt(i), el.a[0][1]: y} if src.k == "enum" else {el: y})
                    r.append(go(b))
                return mk("array", tuple(r))
            body = go(body)
            if src.k == "adt" and src.a[0] == "Range" and el.k == "elem" and el.a[0] is src and adtf(src, "start").k == "int" and adtf(src, "start") is not intt(0):   # counted from 0
                lo = adtf(src, "start")
                src = adt("Range", "Range", (("start", intt(0)), ("end", sub(adtf(src, "end"), lo))))
                e0 = mk("elem", src, el.a[1])
                body, el = subst(body, {el: add(e0, lo)}), e0
            return mk("maplist", src, el, body)
        na = tuple(go(y) for y in x.a)
        if na == x.a: return x
        if x.k == "fold": return settled(mk("fold", *na))
        if x.k == "concat" and na[0].k == "array" and not na[0].a[0] and na[0] is not x.a[0]: return na[1]
        return subst(mk("$", mk(x.k, *na)), {mk("$nothing"): x}).a[0]
    return go(t)


def settled(x):
    """an iteration that only collects, once what it does is known"""
    import models
    src, inits, el, bodies = x.a
    accs = [mk("acc", src, i) for i in range(len(bodies))]
    fixed = {a: v for a, b, v in zip(accs, bodies, inits) if b is a}
    if bodies[0] is accs[0]: return inits[0]
    b = subst(bodies[0], fixed) if fixed else bodies[0]
    if b.k == "push" and b.a[0] is accs[0] and inits[0].k == "array" and not inits[0].a[0] and not any(contains(b.a[1], a) for a in accs): return models.numbered(src, el, b.a[1])
    return x


def _x(v):
    if isinstance(v, T): return cshow(v)
    if isinstance(v, tuple): return "(" + ", ".join(_x(y) for y in v) + ")"
    return str(v)


def picked(t, body):
    """a filter, and what is made of the elements it keeps, as one pass over the list"""
    import models
    src, el, conds = t.a
    if any(c.k == "oneof" for c in conds): return None
    given = set(models.el_facts(src, el)) | {TRUE}
    conds = [c for c in conds if c not in given]
    alts = [(tuple(conds), some(body))] + [(tuple(conds[:i]) + (neg(c),), NONE) for i, c in enumerate(conds)]
    while src.k == "maplist": src = src.a[0]
    return mk("call", "Iterator::filter_map", (src, canon_choice({}, alts)))


LAMBDAS = []     # not empty: closures handed to opaque functions are shown by what they do
ACCEPT = []      # paths no table speaks about
PREP = []        # how paths are rewritten before they are read
SHOWN = set()   # steps whose place in the order of things matters: what they leave behind is told apart from what was there before
OWN = ("mz::", "mu::", "mr::", "minirun", "apply:", "sa::")


def _cs(t):
    k, a = t.k, t.a
    if k == "acc" and isinstance(a[1], int): return "acc%d" % a[1]
    if k == "fold" and all(cshow(x) == "acc0" for x in ([v for _, v in a[3][0].a[0]] if a[3][0].k == "choice" else [a[3][0]])): return cshow(a[1][0])     # only opaque steps touch it
    if k == "sym" or k in ("int", "bool", "const"): return str(a[0])
    if k == "str": return '"%s"' % a[0].replace("{", "{{").replace("}", "}}")
    if k == "f" and a[1] in EMBED and cshow(a[0]) == "self": return "self"
    if k == "f": return "%s.%s" % (cshow(a[0]), a[1])
    if k == "vf" and a[1] in ("Ok", "Some") and ABBR: return cshow(a[0]) + "!"
    if k == "vf": return "%s.%s.%s" % (cshow(a[0]), a[1], a[2])
    if k == "idx":
        b, i = a
        if i.k == "elem" and i.a[0].k == "adt" and i.a[0].a[0] == "Range" and adtf(i.a[0], "start") is intt(0):
            n = adtf(i.a[0], "end")
            if n.k == "call" and n.a[0] == "len" and n.a[1][0] is b: return "each(%s)" % cshow(b)
        return "%s[%s]" % (cshow(b), cshow(i))
    if k == "adt":
        if not a[2]: return a[1]
        e = eta(t)
        if e is not t: return cshow(e)
        if a[2][0][0].isdigit(): return "%s(%s)" % (a[1], ", ".join(cshow(v) for _, v in a[2]))
        return "%s{%s}" % (a[1], ", ".join("%s: %s" % (n, cshow(v)) for n, v in a[2]))
    if k == "tuple" and len(a[0]) > 1:
        e = eta(t)
        if e is not t: return cshow(e)
    if k == "txt": return '"%s"' % "".join(p.a[0].replace("{", "{{").replace("}", "}}") if p.k == "str" else "{%s}" % cshow(p) for p in a[0])
    if k == "tuple": return "(%s)" % ", ".join(cshow(x) for x in a[0])
    if k == "array": return "[%s]" % ", ".join(cshow(x) for x in a[0])
    if k == "lin":
        s = sorted((cshow(x) if c == 1 else "%d*%s" % (c, cshow(x))) for x, c in a[1])
        if a[0]: s.append(str(a[0]))
        return "(%s)" % " + ".join(s)
    if k == "mul": return " * ".join(sorted((cshow(a[0]), cshow(a[1]))))
    if k == "ge0": return "%s >= 0" % cshow(a[0])
    if k == "eq0":
        c0, d = to_lin(a[0])
        if len(d) == 2 and c0 == 0 and any(x.k == "str" for x in d):
            x, y = sorted(d, key=lambda x: x.k == "str")
            return "%s is %s" % (cshow(x), cshow(y))
        if c0 == 0 and sorted(d.values()) == [-1, 1]: return "%s == %s" % tuple(sorted(cshow(x) for x in d))
        s = cshow(a[0]); s2 = cshow(scale(a[0], -1))
        return "%s == 0" % min(s, s2, key=lambda x: (x.count("-1*"), x))
    if k == "is": return "%s is %s" % (cshow(a[0]), a[1])
    if k == "not": return "!(%s)" % cshow(a[0])
    if k in ("and", "or"):
        xs = []

        def flat(x):
            if x.k == k: flat(x.a[0]); flat(x.a[1])
            else: xs.append(cshow(x))
        flat(t)
        return "(" + (" && " if k == "and" else " || ").join(sorted(set(xs))) + ")"
    if k == "upd":
        ks = "." + a[1][1] if a[1][0] == "f" else ".%s.%s" % (a[1][1], a[1][2]) if a[1][0] == "vf" else "[%s]" % cshow(a[1][1])
        b, v = cshow(a[0]), cshow(a[2])
        if ks[1:] in EMBED and b == "self": return v
        return b if v == b + ks else "%s{%s := %s}" % (b, ks, v)   # what an opaque step leaves there is shown as before
    if k in ("call", "eff") and a[0].endswith(("Index<I>>::index", "IndexMut<I>>::index_mut")) and len(a[1]) == 2 and a[1][1].k == "adt" and a[1][1].a[0].rsplit("::", 1)[-1].startswith("Range"):
        d = dict(a[1][1].a[2])
        return "%s[%s..%s]" % (cshow(a[1][0]), cshow(d["start"]) if "start" in d else "", cshow(d["end"]) if "end" in d else "")
    if k in ("call", "eff") and a[0].rsplit("::", 1)[-1] in ABBR:
        n, ix = ABBR[a[0].rsplit("::", 1)[-1]]
        if n == "pointee_ty" and len(a[1]) > 1 and a[1][1] is not TRUE: n = "pointee_ty_unless_raw"
        return "%s(%s)" % (n, ", ".join(_x(a[1][i]) for i in ix if i < len(a[1])))
    if k in ("call", "eff"): return "%s(%s)" % (a[0].rsplit("::", 1)[-1] if not a[0].startswith("<") else a[0], ", ".join(_x(x) for x in a[1]))
    if k == "after" and len(a) > 3: return "after %s(%s)(%s)" % (a[0].rsplit("::", 1)[-1], ", ".join(_x(y) for y in a[3]), cshow(a[2]))
    if k == "after": return cshow(a[2]) if a[0].startswith(OWN) or a[0].endswith(("index_mut", "::next")) else "after %s(%s)" % (a[0], cshow(a[2]))   # the steps of a rule are looked at on their own
    if k == "sorted": return "sorted(%s%s)" % (cshow(a[0]), "" if a[1].k != "key" or a[1].a[0] is a[1].a[1] else " by " + cshow(a[1].a[1]))
    if k in ("lvl", "loopvar"):
        x = cshow(a[1])
        return x if x.isidentifier() and a[1].k != "adt" else "~" + x
    if k == "elem": return "each(%s)" % cshow(a[0])
    if k == "lam": return "(|%s| %s)" % (", ".join(cshow(x) for x in a[0]), cshow(a[1]))
    if k == "closure": return "|%s|" % ", ".join(cshow(x) for x in a[1])
    if k == "filter" and picked(t, a[1]) is not None: return cshow(picked(t, a[1]))
    if k == "maplist":
        src, el, body = a
        if over(src) is not src and src.k == "adt" and el.k == "elem":      # for i in 0..xs.len() is for (i, _) in xs.iter().enumerate()
            x = over(src)
            body = subst(subst(body, {mk("idx", x, el): mk("elem", x, el.a[1])}), {el: mk("pos", x, el.a[1])})
            src = mk("enum", x)
        if eta(body) is el: return cshow(src)
        if src.k == "filter" and picked(src, body) is not None: return cshow(picked(src, body))
        inner = src.a[0] if src.k == "enum" else src
        num = src.k == "enum"
        while inner.k == "maplist":
            if inner.a[0].k == "enum" and el.k == "tuple" and any(y.k == "pos" and y.a[0] is inner.a[0].a[0] and contains(body, y) for y in el.a[0]): num = True
            inner = inner.a[0].a[0] if inner.a[0].k == "enum" else inner.a[0]
        return "[%s for %s]" % (cshow(body), cshow(mk("enum", inner) if num else inner))
    if k == "fn": return a[0]
    if k == "empty" and a[0] in ("Map", "Set", "HashMap", "BTreeMap"): return "[]"
    if k == "minsert" and t.a[0].k in ("minsert", "empty"):
        b, kv = t, []
        while b.k == "minsert": kv.append((cshow(b.a[1]), cshow(b.a[2]))); b = b.a[0]
        if len({x for x, _ in kv}) == len(kv):
            r = cshow(b)
            if b.k == "empty": return "[%s]" % ", ".join("(%s, %s)" % x for x in sorted(kv))
            for x, v in sorted(kv): r = "minsert(%s, %s, %s)" % (r, x, v)
            return r
    if k == "choice": return "{" + "; ".join("%s: %s" % (" && ".join(cshow(c) for c in cs) or "else", cshow(v)) for cs, v in a[0]) + "}"
    return "%s(%s)" % (k, ", ".join(_x(x) for x in a))


def conds(o): return [("" if v else "not ") + cshow(f) for f, v in o.facts]


def short(s):
    for a, b in TEXT: s = s.replace(a, b)
    return s


class View:
    """a path, possibly narrowed by a case of its boolean result"""
    def __init__(self, o, extra=(), val=None):
        self.o, self.st, self.tag, self.kind, self.loc = o, o.st, o.tag, o.kind, o.loc
        self.facts = list(o.facts) + list(extra)
        self.val = o.val if val is None else val

    def __getattr__(self, n):
        if n == "o" or n.startswith("__"): raise AttributeError(n)      # not there yet while it is being copied
        return getattr(self.o, n)


def split(o):
    """a boolean-valued path as one path per disjunct"""
    for f in PREP: o = f(o)
    v = o.val
    if o.tag != "panic" and isinstance(v, T) and v.k in ("call", "eff", "f", "vf", "idx") and any(p and f is eq(mk("call", "len", (v,)), intt(0)) for f, p in (o.facts.items() if isinstance(o.facts, dict) else o.facts)):
        o = View(o, (), mk("array", ()))        # a list known to be empty
    v = o.val
    if o.tag == "panic" or not isinstance(v, T) or v.k not in ("eq0", "ge0", "is", "not", "or", "and"): return [o]

    def flat(x, k): return flat(x.a[0], k) + flat(x.a[1], k) if x.k == k else [x]
    out = []
    for d in flat(v, "or"): out.append(View(o, [(x, True) for x in flat(d, "and")], TRUE))
    for d in flat(neg(v), "or"): out.append(View(o, [(x, True) for x in flat(d, "and")], FALSE))
    return out


ELEMS = {}      # text of a universal condition -> what each of its alternatives says of an element: (text, polarity) pairs


def universal(f):
    """the text of a universal condition; None if it says nothing"""
    alts, full = {}, []
    lit = lambda y: short(cshow(y))
    every = dict.fromkeys(side(x)[0] for alt in f.a[2] for x in alt if x.k != "forall")
    for alt in f.a[2]:
        xs = [(t, True) for t in (universal(x) for x in alt if x.k == "forall") if t]
        ys = [atom(x) for x in alt if x.k != "forall"]
        told = [(x, v) for x, v in (side(x) for x in alt if x.k != "forall")]
        more = [(y, r) for y in every for r in {prefixes(g, w, y) for g, w in told} - {None}]
        full.append(xs + [(lit(y), w) for y, w in ys] + [(lit(y), w) for y, w in (atom(y if r else neg(y)) for y, r in more)])
        xs += [(lit(y), w) for y, w in telling(ys)]
        alts[" && ".join(sorted(("[%s]" % t if t.startswith("forall ") else t) if w else "!(%s)" % t for t, w in xs))] = xs
    if "" in alts: return None
    t = short("forall %s: %s" % (cshow(over(f.a[0])), " || ".join(sorted(alts)) or "none"))
    ELEMS[t] = full
    return t


def telling(fs):
    """without the tests of a text that another one settles"""
    fs = list(fs)
    out = [(x.a[0], not v) if x.k == "not" else (x, v) for x, v in fs]
    return [f for f, (x, _) in zip(fs, out) if not any(g is not x and prefixes(g, w, x) is not None for g, w in out)]


def under(o, row):
    """a path under what a case says of the conditions of its choices; None if it says nothing of them"""
    said, facts, seen = dict(row), [], set()
    terms = [o.val] + [v for v in o.st.store.values() if isinstance(v, T)]
    for f in (f for t in terms for x in subterms(t) if x.k == "choice" for cs, _ in x.a[0] for f in cs):
        if f.k == "not": f = f.a[0]
        if f in seen or f.k not in ("is", "eq0", "ge0"): continue
        seen.add(f)
        l = short(cshow(f))
        if l in said: facts.append((f, said[l]))
        elif f.k == "is" and f.a[1] in TWO:
            l = short(cshow(isv(f.a[0], TWO[f.a[1]])))
            if l in said: facts.append((f, not said[l]))
    if not facts: return None
    o = View(o, facts, o.val)
    o.st = o.st.copy()
    o.st.facts.update(facts)
    return o


def literals(o):
    """text -> polarity of the literals known on a path"""
    d = {}
    for f, v in telling(o.facts.items() if isinstance(o.facts, dict) else o.facts):
        if f.k == "not": f, v = f.a[0], not v
        if f.k == "forall":
            t = universal(f)
            if t: d[t] = v
            continue
        if any(x.k == "choice" for x in subterms(f)): f = reduce({}, f)
        d[short(cshow(f))] = v
        if f.k == "is" and f.a[1] in TWO and twofold(f.a[0]): d[short(cshow(isv(f.a[0], TWO[f.a[1]])))] = not v
    return d


TWO = {"None": "Some", "Err": "Ok", "Break": "Continue"}
TWO.update({b: a for a, b in TWO.items()})


def compatible(lits, row):
    for l, v in row:
        if lits.get(l, v) != v: return False
        if l.startswith("forall ") and l not in lits: return False     # holds of a path only if the path establishes it
        if " is " in l:
            s, V = l.rsplit(" is ", 1)
            for k, w in lits.items():
                if w and k.startswith(s + " is ") and k[len(s) + 4:] != V and " " not in k[len(s) + 4:]:
                    if v: return False
    for l, v in row:
        a = interval(l, v)
        for k, w in lits.items() if a else ():
            b = interval(k, w)
            if b and a[0] == b[0] and (a[1] > b[2] or b[1] > a[2]): return False
    for k, w in lits.items():       # a row about the payload of another variant
        if w and " is " in k:
            S, V = k.rsplit(" is ", 1)
            for l, _ in row:
                i = l.find(S + ".") if l.startswith(S) else -1
                if i == 0:
                    x = l[len(S) + 1:].split(".")[0]
                    if x[:1].isupper() and x != V and x.isalnum(): return False
    for k in lits:      # every element satisfies one of the alternatives: a row about an element that satisfies none is not met
        if k.startswith("forall ") and lits[k] and unmet(k, [x for x in row if lits.get(x[0]) != x[1]]): return False
    return True


def escape(lits, matched, rows):
    """conditions the path leaves open under which no row speaks about it: an input the table means to be refused"""
    subjects = {}
    for _, row, _ in rows:
        for l, _ in row:
            if " is " in l: subjects.setdefault(l.rsplit(" is ", 1)[0], set()).add(l)

    def negatable(l):
        if l.startswith("forall ") or l in lits: return False
        if " is " not in l: return not any(entails(k, w, l) for k, w in lits.items())
        s = l.rsplit(" is ", 1)[0]
        return len(subjects[s]) == 1 and not any(k.startswith(s + " is ") or k.startswith(s + ".") or " " + s + "." in k for k in lits)

    def search(rest, chosen):
        if not rest: return chosen
        for l, v in rest[0][1]:
            if not negatable(l) or chosen.get(l, not v) == v: continue
            nxt = dict(chosen); nxt[l] = not v
            both = dict(lits); both.update(nxt)
            r = search([x for x in rest[1:] if compatible(both, x[1])], nxt)
            if r is not None: return r
        return None
    r = search(matched, {})
    return sorted(r.items()) if r else None


def entails(k, w, l):
    """does knowing k (or its negation) settle l"""
    a, b = interval(k, w), interval(l, True)
    if a is None: return False
    b = b or interval(l, False)
    return bool(b) and a[0] == b[0]


def pieces(x, sep):
    """the parts of a text between the separators outside all brackets; None if the brackets do not match"""
    out, d, i, n = [], 0, 0, 0
    while i < len(x):
        d += (x[i] in "([{") - (x[i] in ")]}")
        if d < 0: return None
        if d == 0 and x.startswith(sep, i): out.append(x[n:i]); i += len(sep); n = i; continue
        i += 1
    return out + [x[n:]] if d == 0 else None


BOUND = {}


def interval(l, v):
    """(subject, lowest, highest) of a literal that bounds an integer, or the difference of two"""
    if (l, v) not in BOUND: BOUND[l, v] = bound(l, v)
    return BOUND[l, v]


def bound(l, v):
    inf = float("inf")
    x = pieces(l, " == ") if " == " in l else None
    if x and len(x) == 2 and x[1] != "0": return ("%s - %s" % tuple(sorted(x)), 0, 0) if v else None
    if l[-5:] not in (" >= 0", " == 0"): return None
    ge, l = l[-4] == ">", l[:-5]
    if l.startswith("(") and l.endswith(")") and pieces(l[1:-1], " + "): l = l[1:-1]
    k, cs = 0, []
    for t in pieces(l, " + ") or ["?", "?", "?"]:
        if t.lstrip("-").isdigit(): k += int(t)
        elif t.startswith("-1*"): cs.append((t[3:], -1))
        else: cs.append((t, 1))
    if len(cs) == 2 and cs[0][1] != cs[1][1]:
        (x, s), (y, _) = sorted(cs)
        x = "%s - %s" % (x, y)
    elif len(cs) == 1: (x, s), = cs
    else: return None
    if not ge: return (x, -k * s, -k * s) if v else None
    if s < 0: return (x, -inf, k) if v else (x, k + 1, inf)
    return (x, -k, inf) if v else (x, -inf, -k - 1)


def unmet(k, row):
    """no alternative of the universal condition k is met by the element the row speaks of"""
    if not ELEMS[k]: return any("each(%s)" % k[7:].rsplit(": ", 1)[0] in l for l, _ in row)
    return all(any(contradicts(x, w, row) for x, w in alt) for alt in ELEMS[k])


def contradicts(x, w, row):
    if x.startswith("forall "): return unmet(x, row)
    if x.startswith("!(") and x.endswith(")"): x, w = x[2:-1], not w
    for l, v in row:
        if l == x and v != w: return True
        if v and w and " is " in l and " is " in x and l.rsplit(" is ", 1)[0] == x.rsplit(" is ", 1)[0] and l != x: return True
    return False


GENERIC = set()   # opaque functions whose type arguments are part of what they are asked to do
HALTS = set()     # functions that end the process: where a path ends in one of these, the call is its result (any other panic is a refusal)


def tailed(text, unit):
    """what a fallible step returns is returned as it is, or taken out by `?` and wrapped again: the same"""
    import re
    m = re.match(r"([\w:]+)( ; .*)$", text)
    if m and "?" not in text.rsplit(" ; ", 1)[-1] and text.rsplit(" ; ", 1)[-1].startswith(m[1] + "(") and text.endswith(")"): text = "Ok(%s.Ok.0)%s?" % (m[1], m[2])
    if unit: text = re.sub(r"^Ok\([\w:]+\.Ok\.0\)(?= ; |$)", "Ok(())", text)
    return text


def halting(o, show=None):
    if o.halt is None or o.halt[0].rsplit("::", 1)[-1] not in HALTS: return None
    return "%s!(%s)" % (o.halt[0].rsplit("::", 1)[-1], ", ".join(cshow(reduce(o.st.facts, a)) for a in o.halt[1])) + "".join(" ; " + x for x in (show.effects(o) if hasattr(show, "effects") else []))


def cases(c, name, fn, text, opaque=(), show=None, env=None, args=None, assume=(), accept=None, P=None, tags=("value", "Ok", "Err", "Ub")):
    """Decision table over literals: lines `lit & not lit & ... => result` ('!': refused).  Every accepted path of fn must have the result of
    every row its condition is compatible with, and be compatible with some row; every row must be reached."""
    outs = c.paths(fn, opaque=opaque, prog=P or c.prog(*ALL), assume=assume, env=env, args=args)
    rows = []
    for l in text.strip().splitlines():
        l = l.strip()
        if not l or l.startswith("#"): continue
        head, want = l.split(" => ", 1)
        row = []
        for x in head.split(" & "):
            x = x.strip()
            if x in ("", "always"): continue
            row.append((x[4:], False) if x.startswith("not ") else (x, True))
        rows.append((head.strip(), row, want.strip()))
    hit = set()
    body = (P or c.prog(*ALL)).fn(fn)
    unit = body is not None and "Result<()" in body.locals[0]
    for o in (v for o in outs for v in split(o)):
        lits = literals(o)
        got = None
        if o.tag != "panic":
            got = short(show(o) if show else cshow(reduce(o.st.facts, o.val)))
        elif halting(o):
            got = short(halting(o, show))
        matched = [r for r in rows if compatible(lits, r[1])]
        if got is not None and (not matched or escape(lits, matched, rows)):    # what a path left unasked of the elements of a list may make no difference
            open_ = [(h, [(l, v) for l, v in row if not l.startswith("forall ") or l in lits], w) for h, row, w in rows]
            open_ = [r for r in open_ if compatible(lits, r[1])]
            asked = lambda w: got in w.split(" OR ") or got in ("True", "False") and all(x.startswith("for all ") for x in w.split(" ; ")[1:]) and w.split(" ; ")[0] == got
            if open_ and all(asked(w) for _, _, w in open_) and not escape(lits, open_, open_):
                hit.update(h for h, _, _ in open_)
                continue
        if got is None:
            for head, _, want in matched:
                if want == "!": hit.add(head); c.must(True, "%s/%s" % (name, head), fn, "", o)
            continue
        if any(f(o, got) for f in ACCEPT + [accept] if f): continue
        if not matched: c.must(False, "%s/unlisted-case" % name, fn, "%s: an input the table says nothing about is accepted, with result\n    %s" % (name, got), o)
        free = escape(lits, matched, rows) if matched else None
        if free: c.must(False, "%s/unlisted-case" % name, fn, "%s: an input the table says nothing about is accepted: one for which %s" % (name, " and ".join(("" if v else "not ") + l for l, v in free)), o)
        for head, row_, want in matched:
            hit.add(head)
            here = got
            if here not in want.split(" OR "):      # the case may be told apart inside an iteration
                o2 = under(o, row_)
                if o2 is not None: here = short(show(o2) if show else cshow(reduce(o2.st.facts, o2.val)))
            same = here in want.split(" OR ") or tailed(here, unit) in [tailed(w, unit) for w in want.split(" OR ")]
            c.must(same, "%s/%s" % (name, head), fn, "%s: in the case `%s` the result is\n    %s\n  expected\n    %s" % (name, head, here, want if want != "!" else "a refusal"), o)
    for head, _, want in rows: c.must(head in hit, "%s/%s/covered" % (name, head), fn, "%s: the case `%s` is never reached" % (name, head))
    return outs


def maps(c, name, fn, rows, opaque=(), assume=(), env=None, closed=True, show=None, args=None):
    """rows: [(label, condition | None, expected)], expected = canonical text, None for a refusal (panic), or a callable(out) -> bool.
    Under each row's condition every path must have the row's outcome; an input accepted outside all rows is reported."""
    P = c.prog(*ALL)
    for label, cond, want in rows:
        outs = c.paths(fn, opaque=opaque, prog=P, assume=list(assume) + ([cond] if cond is not None else []), env=env, args=args)
        key = "%s/%s" % (name, label)
        if want is None:
            for o in outs: c.must(o.tag == "panic", key, fn, "%s: the case `%s` must be refused" % (name, label), o)
            c.must(len(outs) > 0, key + "/covered", fn, "%s: the case `%s` does not exist" % (name, label))
            continue
        n = 0
        for o in outs:
            if o.tag == "panic": continue
            n += 1
            if callable(want):
                c.must(want(o), key, fn, "%s: the case `%s` has the wrong outcome" % (name, label), o); continue
            got = show(o) if show else cshow(reduce(o.st.facts, o.val))
            c.must(got in want.split(" OR "), key, fn, "%s: in the case `%s` the result is\n    %s\n  expected\n    %s" % (name, label, got, want), o)
        c.must(n > 0, key + "/covered", fn, "%s: the case `%s` is always refused" % (name, label))
    if closed and all(cond is not None for _, cond, _ in rows):
        for o in c.paths(fn, opaque=opaque, prog=P, assume=assume, env=env, args=args):
            if o.tag == "panic": continue
            ok = any(want is not None and holds(o.st.facts, cond if isinstance(cond, T) else E(cond, env)) is not False for _, cond, want in rows)
            c.must(ok, "%s/unlisted-case" % name, fn, "%s: an input the table says nothing about is accepted" % name, o)


def tables(c, text, env=None, opaque=(), prefix="", macros=None, **kw):
    """lines `fn(params) [| condition] => expected` ('!' = refused); consecutive lines of one function form its table"""
    import re
    rows = {}
    macros = macros or {}

    def macro(w):
        for k, v in macros.items(): w = w.replace(k, v)
        return w
    for l in text.strip().splitlines():
        l = l.strip()
        if not l or l.startswith("#"): continue
        head, want = l.split(" => ", 1)
        cond = None
        if " | " in head: head, cond = head.split(" | ", 1)
        m = re.match(r"(.+)\(([^()]*)\)$", head.strip())
        fn = prefix + m.group(1)
        rows.setdefault((fn, m.group(2)), []).append((cond.strip() if cond else "always", cond.strip() if cond else None, None if want.strip() == "!" else macro(want.strip())))
    n = 0
    for (fn, ps), rs in rows.items():
        args = {i + 1: sym(p.strip()) for i, p in enumerate(ps.split(",")) if p.strip() and p.strip() != "self"}
        maps(c, fn.rsplit("::", 1)[-1] if not fn.startswith("<") else fn, fn, rs, opaque=opaque, env=env, args=args, **kw)
        n += 1
    return n


def sig(head):
    """'fn(a, b)' -> (fn, {1: a, 2: b})"""
    import re
    m = re.match(r"(.+?)\(([^()]*)\)$", head.strip())
    if not m: return head.strip(), None
    return m.group(1), {i + 1: sym(p.strip()) for i, p in enumerate(m.group(2).split(",")) if p.strip() not in ("", "self")}


def book(c, text, opaque=(), show=None, shows=(), env=None, assume=(), accepts=()):
    """blocks `## fn(params)` followed by rows of `cases`"""
    P = c.prog(*ALL)
    n = 0
    for blk in text.strip().split("## ")[1:]:
        head, body = blk.split("\n", 1)
        fn, args = sig(head)
        nm = fn.rsplit("::", 1)[-1]
        cases(c, nm, fn, body, opaque=[x for x in opaque if x != fn], show=dict(shows).get(fn, dict(shows).get(nm, show)), env=env, args=args, P=P, assume=assume, accept=dict(accepts).get(fn, dict(accepts).get(nm)))
        n += 1
    return n


def withself(o):
    """result ; final state of self (omitted if untouched)"""
    s = cshow(reduce(o.st.facts, o.val)); f = o.st.store.get(("arg", "self"))
    f = None if f is None else cshow(reduce(o.st.facts, f))
    return s if f in (None, "self") else s + " ; " + f


def over(src):
    """the collection a loop visits, whichever way it is iterated"""
    while True:
        if src.k in ("mapproj", "enum", "rev"): src = src.a[0]
        elif src.k == "adt" and src.a[0] == "Range" and adtf(src, "start") is intt(0) and adtf(src, "end").k == "call" and adtf(src, "end").a[0] == "len": src = adtf(src, "end").a[1][0]
        else: return src


def part(t):
    """a slice place as (the place it is cut from, the range of positions)"""
    if t.k == "eff" and "IndexMut" in t.a[0] and t.a[1][1].k == "adt":
        b, r = t.a[1][:2]
        d = dict(r.a[2])
        return b, adt("Range", "Range", (("start", d.get("start", intt(0))), ("end", d.get("end") or mk("call", "len", (b,)))))
    return t, adt("Range", "Range", (("start", intt(0)), ("end", mk("call", "len", (t,)))))


def effects(*names, order=False, writes=True, result=True):
    """show = result ; the calls to `names` and the writes through mutable parameters, each with the loops (and the conditions inside them) it
    happens under.  Unless `order`, as a set: for effects that commute and are idempotent."""
    def base(n):
        b = n.rsplit("::", 1)[-1]
        return b if sum(x.rsplit("::", 1)[-1] == b for x in names) == 1 else "::".join(n.split("::")[-2:])

    def show(o):
        acc = []      # (text, [(conds)])

        def lits(fs):
            r = []
            for x, v in fs:
                if x.k in ("forall", "ge0"): continue
                if x.k == "not": x, v = x.a[0], not v
                r.append(("" if v else "not ") + cshow(x))
            return r

        def walk(evs, ctx):
            for e in evs:
                if e[0] == "call" and e[1] in names:
                    acc.append(("%s(%s)" % (base(e[1]), ", ".join(_x(reduce(o.st.facts, a)) for a in e[2])), ctx))
                elif e[0] == "call" and writes and str(e[1]).endswith("::fill") and len(e[2]) == 2:
                    b, r = part(e[2][0])
                    acc.append(("%s[each(%s)] := %s" % (cshow(b), cshow(r), cshow(e[2][1])), ctx + [("for " + cshow(over(r)), (), 1)]))
                elif e[0] == "write" and writes and e[1][0] == "sym" and not e[2] and ctx and str(e[1][1]) in (str(ctx[-1][3]), raw(ctx[-1][3])):
                    b, r = part(ctx[-1][3].a[0])
                    acc.append(("%s[each(%s)] := %s" % (cshow(b), cshow(r), cshow(e[3])), ctx[:-1] + [("for " + cshow(over(r)),) + ctx[-1][1:]]))
                elif e[0] == "write" and writes and e[1][0] in ("arg", "sym"):
                    acc.append(("%s%s := %s" % (e[1][1], "".join("[%s]" % cshow(p[1]) if p[0] == "idx" else ".%s" % p[-1] for p in e[2]), cshow(e[3])), ctx))
                elif e[0] == "loop":
                    for fs, ev in e[3]: walk(ev, ctx + [("for " + cshow(over(e[1])), tuple(lits(fs)), len(e[3]), e[2])])
        walk(o.st.events, [])
        seen = {}
        for t, ctx in acc:
            seen.setdefault((t, tuple(c[0] for c in ctx)), []).append(ctx)
        out = []
        for (t, fors), cs in seen.items():
            txt = t
            for i, f in enumerate(fors):
                ways = {c[i][1] for c in cs}
                common = set.intersection(*(set(w) for w in ways))
                txt += " " + f
                if len(ways) < cs[0][i][2] or any(set(w) - common and not any(len(set(w) ^ set(x)) == 2 for x in ways if x is not w) for w in ways):
                    txt += " if " + (" && ".join(sorted(common)) or "?")
            out.append(txt)
        return out if order else sorted(set(out))
    full = lambda o: " ; ".join((([cshow(reduce(o.st.facts, o.val))] if result else []) + show(o)) or ["nothing"])
    full.effects = show
    return full


def whiles(show, calls=()):
    """show ; for every loop that runs until a condition holds: the state it starts from, what an iteration does to it (and, in order, what it
    calls among `calls`), and what holds when it ends"""
    def text(o):
        lvs, out = {}, []
        facts = lambda fs: sorted({x for x in (("" if v else "not ") + sh(f) for f, v in fs if f.k != "forall") if not trivial(x)})
        trivial = lambda s: " == " in s and s.split(" == ")[0] == s.split(" == ")[1]
        sh = lambda t: cshow(reduce(o.st.facts, subst(t, lvs)))
        called = lambda evs: ["%s(%s)" % (x[1].rsplit("::", 1)[-1], ", ".join(sh(a) for a in x[2])) for x in evs if x[0] == "call" and x[1] in calls]
        for e in o.st.events:
            if e[0] != "while": continue
            new = list(dict.fromkeys(lv for steps in e[4] for lv, _ in steps if lv not in lvs))
            for lv in sorted(new, key=lambda lv: sh(lv.a[1]) if lv.k in ("loopvar", "lvl") else "~"): lvs[lv] = sym("W%d" % len(lvs) if lvs else "W")   # named in the order of what they start from
        for e in o.st.events:
            if e[0] != "while": continue
            for lv in sorted({lv for steps in e[4] for lv, _ in steps}, key=sh): out.append("%s from %s" % (sh(lv), sh(lv.a[1]) if lv.k in ("loopvar", "lvl") else "?"))
            ways = sorted("; ".join(called(evs) + ["%s := %s" % (sh(lv), sh(nv)) for lv, nv in sorted(steps, key=lambda x: sh(x[0]))]) + " if " + " && ".join(facts(fs)) for (fs, evs), steps in zip(e[3], e[4]))
            out += ["each time " + w for w in ways]
        for f, v in o.st.order:
            if lvs and any(contains(f, lv) for lv in lvs):
                if f.k == "forall": out.append("until for all %s: %s" % (sh(over(f.a[0])), " or ".join(" && ".join(sh(x) for x in alt) for alt in f.a[2])))
                else: out.append("until " + ("" if v else "not ") + sh(f))
        class V:
            st = o.st; facts = o.facts if hasattr(o, "facts") else []
            val = subst(o.val, lvs)
        return " ; ".join([show(V) if show else sh(o.val)] + out)
    return text


def cse(text, words=("fold(",)):
    """repeated long parts of a result are written once"""
    names = {}
    while True:
        best = None
        for w in words:
            i = text.find(w)
            if i >= 0 and (best is None or i < best): best = i
        if best is None: break
        d = 0
        for j in range(best, len(text)):
            if text[j] in "([{": d += 1
            elif text[j] in ")]}":
                d -= 1
                if d == 0: break
        part_ = text[best:j + 1]
        names[part_] = "F%d" % (len(names) + 1)
        text = text.replace(part_, names[part_])
    return " ; ".join([text] + ["%s = %s" % (n, p) for p, n in names.items()])
