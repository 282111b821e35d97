"""Hash-consed value terms (global value numbering) and their normal forms."""
import re

_tab = {}
_cnt = [0]


class T:
    __slots__ = ("k", "a", "id", "_s")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(k, *a):
    key = (k,) + a
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k = k; t.a = a; t._s = None
        _cnt[0] += 1
        t.id = _cnt[0]
        _tab[key] = t
    return t


TRUE = mk("bool", True)
FALSE = mk("bool", False)
UNIT = mk("tuple", ())


def boolt(b): return TRUE if b else FALSE
def sym(n): return mk("sym", n)
def intt(n): return mk("int", n)
def adt(path, var, fields=()): return mk("adt", path, var, tuple(fields))
def tup(*xs): return mk("tuple", tuple(xs))
def some(x): return adt("Option", "Some", (("0", x),))


NONE = adt("Option", "None")
def ok(x): return adt("Result", "Ok", (("0", x),))
def err(x): return adt("Result", "Err", (("0", x),))


def is_adt(t, var=None, path=None):
    return t.k == "adt" and (var is None or t.a[1] == var) and (path is None or t.a[0] == path)


def adtf(t, name):
    for n, v in t.a[2]:
        if n == name: return v
    return None


# ---- projections -------------------------------------------------------------------------------
def field(t, name):
    if t.k == "adt":
        v = adtf(t, name)
        if v is not None: return v
    elif t.k == "tuple":
        try: return t.a[0][int(name)]
        except (ValueError, IndexError): pass
    elif t.k == "upd":
        b, key, v = t.a
        if key == ("f", name): return v
        if key[0] in ("f", "vf"): return field(b, name)
    elif t.k == "closure":
        try: return t.a[1][int(name)]
        except (ValueError, IndexError): pass
    elif t.k == "zipelem":
        return t.a[int(name)]
    return mk("f", t, name)


def vfield(t, var, name):
    if t.k == "adt":
        if t.a[1] == var:
            v = adtf(t, name)
            if v is not None: return v
    elif t.k == "upd":
        b, key, v = t.a
        if key == ("vf", var, name): return v
        if key[0] in ("f", "vf"): return vfield(b, var, name)
    elif t.k == "call" and var == "Some" and t.a[0] in ("HashMap::get", "BTreeMap::get") and len(t.a[1]) == 2: return index(*t.a[1])
    return mk("vf", t, var, name)


def index(t, i):
    if i.k == "adt" and i.a[0].startswith("Range"):     # a part of it
        if t.k == "idx" and t.a[1].k == "adt" and t.a[1].a[0] == "RangeFrom" and i.a[0] in ("Range", "RangeTo", "RangeFrom"):    # a part of the rest of it
            s, n = adtf(t.a[1], "start"), dict(i.a[2])
            lo = add(s, n["start"]) if "start" in n else s
            i = adt("Range", "Range", (("start", lo), ("end", add(s, n["end"])))) if "end" in n else adt("RangeFrom", "RangeFrom", (("start", lo),))
            t = t.a[0]
        return mk("idx", t, i)
    if t.k == "upd":
        b, key, v = t.a
        if key[0] == "idx":
            if key[1] is i: return v
            d = diff_const(key[1], i)
            if d is not None and d != 0: return index(b, i)
        else:
            return mk("idx", t, i)
    elif t.k == "array":
        if i.k == "int" and 0 <= i.a[0] < len(t.a[0]): return t.a[0][i.a[0]]
    elif t.k == "repeat":
        return t.a[0]
    elif t.k == "maplist":
        # element of a list built by mapping: substitute the representative element
        src, el, body = t.a
        if src.k == "enum" and el.k == "tuple": return subst(body, {el.a[0][0]: i, el.a[0][1]: index(src.a[0], i)})
        return subst(body, {el: index(src, i)})
    return mk("idx", t, i)


def proj(t, key):
    if key[0] == "f": return field(t, key[1])
    if key[0] == "vf": return vfield(t, key[1], key[2])
    if key[0] == "idx": return index(t, key[1])
    raise KeyError(key)


def update(t, key, v):
    if key[0] == "f":
        if t.k == "adt":
            return adt(t.a[0], t.a[1], tuple((n, v if n == key[1] else x) for n, x in t.a[2]))
        if t.k == "tuple":
            i = int(key[1])
            return mk("tuple", tuple(v if j == i else x for j, x in enumerate(t.a[0])))
        if t.k == "closure":
            i = int(key[1])
            return mk("closure", t.a[0], tuple(v if j == i else x for j, x in enumerate(t.a[1])))
    if key[0] == "vf" and t.k == "adt" and t.a[1] == key[1]:
        return adt(t.a[0], t.a[1], tuple((n, v if n == key[2] else x) for n, x in t.a[2]))
    if proj(t, key) is v: return t
    if t.k == "upd" and t.a[1] == key:
        t = t.a[0]
        if proj(t, key) is v: return t
    elif t.k == "upd" and t.a[1][0] == "f" and key[0] == "f" and repr(t.a[1]) > repr(key):
        # canonical order of independent field updates
        return mk("upd", update(t.a[0], key, v), t.a[1], t.a[2])
    return mk("upd", t, key, v)


# ---- linear arithmetic ---------------------------------------------------------------------------
def to_lin(t):
    if t.k == "int": return t.a[0], {}
    if t.k == "lin": return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def from_lin(c, d):
    items = tuple(sorted(((t, k) for t, k in d.items() if k), key=lambda x: x[0].id))
    if not items: return intt(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1: return items[0][0]
    return mk("lin", c, items)


def add(a, b, s=1):
    c1, d1 = to_lin(a); c2, d2 = to_lin(b)
    for t, k in d2.items(): d1[t] = d1.get(t, 0) + s * k
    return from_lin(c1 + s * c2, d1)


def sub(a, b): return add(a, b, -1)


def scale(a, n):
    c, d = to_lin(a)
    return from_lin(c * n, {t: k * n for t, k in d.items()})


def mul(a, b):
    if a.k == "int": return scale(b, a.a[0])
    if b.k == "int": return scale(a, b.a[0])
    x, y = sorted((a, b), key=lambda t: t.id)
    return mk("mul", x, y)


def diff_const(a, b):
    d = sub(a, b)
    return d.a[0] if d.k == "int" else None


# ---- boolean formulas ----------------------------------------------------------------------------
def neg(f):
    if f.k == "bool": return boolt(not f.a[0])
    if f.k == "not": return f.a[0]
    if f.k == "and": return disj(neg(f.a[0]), neg(f.a[1]))
    if f.k == "or": return conj(neg(f.a[0]), neg(f.a[1]))
    return mk("not", f)


def conj(a, b):
    if a is FALSE or b is FALSE: return FALSE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is b: return a
    return mk("and", a, b)


def disj(a, b):
    if a is TRUE or b is TRUE: return TRUE
    if a is FALSE: return b
    if b is FALSE: return a
    if a is b: return a
    return mk("or", a, b)


def conjs(xs):
    r = TRUE
    for x in xs: r = conj(r, x)
    return r


def ge0(l):
    if l.k == "int": return boolt(l.a[0] >= 0)
    return mk("ge0", l)


def le(a, b): return ge0(sub(b, a))
def lt(a, b): return ge0(sub(sub(b, a), intt(1)))
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)


def eq0(l):
    if l.k == "int": return boolt(l.a[0] == 0)
    c, d = to_lin(l)
    items = sorted(d.items(), key=lambda x: x[0].id)
    if items[0][1] < 0: l = scale(l, -1)
    return mk("eq0", l)


def isv(t, var, path=None):
    """t is the enum variant `var`"""
    if t.k == "adt": return boolt(t.a[1] == var)
    if t.k == "upd" and t.a[1][0] in ("vf", "f"): return isv(t.a[0], var, path)
    return mk("is", t, var)


def eq(a, b):
    if a is b: return TRUE
    if a.k == "bool": return b if a.a[0] else neg(b)
    if b.k == "bool": return a if b.a[0] else neg(a)
    if a.k == "adt" and b.k == "adt":
        if a.a[1] != b.a[1]: return FALSE
        r = TRUE
        for (n, x), (m, y) in zip(a.a[2], b.a[2]): r = conj(r, eq(x, y))
        return r
    if b.k == "adt" and a.k != "adt": a, b = b, a
    if a.k == "adt":
        path, var, fs = a.a
        if not is_enum(path):
            r = TRUE
            for n, x in fs: r = conj(r, eq(x, field(b, n)))
            return r
        r = isv(b, var)
        for n, x in fs: r = conj(r, eq(x, vfield(b, var, n)))
        return r
    if b.k == "tuple" and a.k != "tuple": a, b = b, a
    if a.k == "tuple":
        r = TRUE
        for i, x in enumerate(a.a[0]): r = conj(r, eq(x, field(b, str(i))))
        return r
    if a.k in ("str",) and b.k == a.k: return boolt(a is b)
    for x, y in ((a, b), (b, a)):
        if x.k == "const" and x.a[0].startswith("symbol:") and y.k == "f" and y.a[1] == "private_use_as_methods_instead" and y.a[0].k == "f" and y.a[0].a[1] == "0":
            return eq(y.a[0].a[0], mk("str", x.a[0][7:]))
    return eq0(sub(a, b))


ENUMS = {}   # path -> [variant names]; filled by the loader


def is_enum(path): return path in ENUMS


def subst(t, m):
    if t in m: return m[t]
    def go(x):
        if isinstance(x, T): return subst(x, m)
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        return x
    if t.k in ("sym", "int", "bool", "str", "const"): return t
    na = tuple(go(x) for x in t.a)
    if na == t.a: return t
    k = t.k
    if k == "f": return field(na[0], na[1])
    if k == "vf": return vfield(na[0], na[1], na[2])
    if k == "idx": return index(na[0], na[1])
    if k == "upd": return update(na[0], na[1], na[2])
    if k == "lin":
        r = intt(na[0])
        for x, c in na[1]: r = add(r, scale(x, c))
        return r
    if k == "ge0": return ge0(na[0])
    if k == "eq0": return eq0(na[0])
    if k == "txt": return text(na[0])
    if k == "not": return neg(na[0])
    if k == "and": return conj(na[0], na[1])
    if k == "or": return disj(na[0], na[1])
    if k == "is": return isv(na[0], na[1])
    if k == "mul": return mul(na[0], na[1])
    return mk(k, *na)


def text(parts):
    """the string made of these parts in order"""
    out = []
    for p in parts:
        if p.k == "array" and not p.a[0]: continue
        for q in p.a[0] if p.k == "txt" else (p,):
            if q.k == "str":
                if not q.a[0]: continue
                if out and out[-1].k == "str": out[-1] = mk("str", out[-1].a[0] + q.a[0]); continue
            out.append(q)
    if not out: return mk("str", "")
    return out[0] if len(out) == 1 else mk("txt", tuple(out))


def contains(t, x, seen=None):
    """does the term x occur in t"""
    if t is x: return True
    if seen is None: seen = set()
    if t.id in seen: return False
    seen.add(t.id)
    def go(y):
        if isinstance(y, T): return contains(y, x, seen)
        if isinstance(y, tuple): return any(go(z) for z in y)
        return False
    return any(go(y) for y in t.a)


def subterms(t, seen=None):
    if seen is None: seen = set()
    if t.id in seen: return
    seen.add(t.id)
    yield t
    def go(y):
        if isinstance(y, T): yield from subterms(y, seen)
        elif isinstance(y, tuple):
            for z in y: yield from go(z)
    for y in t.a: yield from go(y)


# ---- printing ------------------------------------------------------------------------------------
def show(t, d=0):
    if t._s is not None: return t._s
    s = _show(t, d)
    if len(s) > 600: s = s[:600] + "…"
    t._s = s
    return s


def _sh(x, d):
    if isinstance(x, T): return show(x, d + 1)
    if isinstance(x, tuple): return "(" + ",".join(_sh(y, d) for y in x) + ")"
    return str(x)


def _show(t, d):
    k, a = t.k, t.a
    if k == "sym": return a[0]
    if k in ("int", "bool", "const"): return str(a[0])
    if k == "str": return '"%s"' % a[0]
    if k == "f": return "%s.%s" % (show(a[0]), a[1])
    if k == "vf": return "(%s as %s).%s" % (show(a[0]), a[1], a[2])
    if k == "idx": return "%s[%s]" % (show(a[0]), show(a[1]))
    if k == "adt":
        h = a[1] if a[0].split("<")[0] in ("Option", "Result") or a[1] != a[0] else a[0]
        if not a[2]: return h
        if a[2][0][0].isdigit(): return "%s(%s)" % (h, ", ".join(show(v) for _, v in a[2]))
        return "%s{%s}" % (h, ", ".join("%s: %s" % (n, show(v)) for n, v in a[2]))
    if k == "tuple": return "(%s)" % ", ".join(show(x) for x in a[0])
    if k == "array": return "[%s]" % ", ".join(show(x) for x in a[0])
    if k == "lin":
        s = " + ".join((show(x) if c == 1 else "%d*%s" % (c, show(x))) for x, c in a[1])
        return "(%s%s)" % (s, " + %d" % a[0] if a[0] else "")
    if k == "ge0": return "%s >= 0" % show(a[0])
    if k == "eq0": return "%s == 0" % show(a[0])
    if k == "is": return "%s is %s" % (show(a[0]), a[1])
    if k == "not": return "!(%s)" % show(a[0])
    if k == "and": return "(%s && %s)" % (show(a[0]), show(a[1]))
    if k == "or": return "(%s || %s)" % (show(a[0]), show(a[1]))
    if k == "upd":
        key = a[1]
        ks = "." + key[1] if key[0] == "f" else ".%s.%s" % (key[1], key[2]) if key[0] == "vf" else "[%s]" % show(key[1])
        return "%s{%s := %s}" % (show(a[0]), ks, show(a[2]))
    if k == "call": return "%s(%s)" % (a[0], ", ".join(_sh(x, d) for x in a[1]))
    if k == "eff": return "%s#%d(%s)" % (a[0], a[2], ", ".join(_sh(x, d) for x in a[1]))
    if k == "closure": return "|%s|[%s]" % (a[0].split("::", 1)[-1], ", ".join(show(x) for x in a[1]))
    if k == "elem": return "each(%s)" % show(a[0]) + ("'" * a[1])
    return "%s(%s)" % (k, ", ".join(_sh(x, d) for x in a))
