"""Transfer functions of the primitives the specification is written in (libspecr, core operators, iterator adapters)."""
from terms import *
from engine import Out, AnalysisError, decide, NONNEG, canon, fold_of, TERM_ENUM
import terms

MODELS = {}


def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d


def fam(ty):
    """which monad does a type belong to"""
    c = canon(ty.split("<")[0].lstrip("&"))
    if c == "Option": return "Option"
    if c in ("Result", "NdResult"): return "Result"
    if c == "Nondet": return "Nondet"
    return None


def val(st, e, v):
    return e.load(st, v.a[0], v.a[1]) if v.k == "mref" else v


# ---- monads
@model("Try::branch")
def branch(e, st, a, c):
    x = val(st, e, a[0])
    f = fam(c["argty"][0]) or ("Option" if (c["res"] or "").startswith("<Option") else "Nondet" if (c["res"] or "").startswith("<Nondet") else "Result")
    if f == "Nondet": return adt("ControlFlow", "Continue", (("0", x),))
    good, bad = ("Some", "None") if f == "Option" else ("Ok", "Err")
    if x.k == "adt":
        if x.a[1] == good: return adt("ControlFlow", "Continue", (("0", adtf(x, "0")),))
        return adt("ControlFlow", "Break", (("0", x),))
    res = []
    for s in e.assume(st.copy(), isv(x, good)):
        res.append(Out("ret", adt("ControlFlow", "Continue", (("0", vfield(x, good, "0")),)), s))
    for s in e.assume(st.copy(), isv(x, bad)):
        r = NONE if f == "Option" else err(vfield(x, "Err", "0"))
        res.append(Out("ret", adt("ControlFlow", "Break", (("0", r),)), s))
    return res


@model("Command::env")
def m_env(e, st, a, c):
    """variables of a child's environment are set in whichever order"""
    st.events.append(("call", "Command::env", tuple(e.load(st, x.a[0], x.a[1]) if x.k == "mref" else x for x in a), a[0], c.get("sp", ""), tuple(a)))
    return a[0]


@model("residual_into_try_type", "BufReader::new")
def residual_into(e, st, a, c): return a[0]


@model("FromResidual::from_residual")
def from_residual(e, st, a, c):
    f = fam(c["dty"])
    if f is None: f = "Option" if a[0].k == "adt" and a[0].a[1] == "None" else "Result"
    if f == "Option": return NONE
    x = a[0]
    if is_adt(x, "Err"): return x
    return err(vfield(x, "Err", "0"))


@model("from_yeet", "try_trait::from_yeet")
def from_yeet(e, st, a, c):
    f = fam(c["dty"])
    if f == "Option" or (f is None and a[0] is UNIT): return NONE
    return err(a[0])


@model("ret", "MonadicReturn::monadic_return", "Try::from_output")
def ret(e, st, a, c):
    f = fam(c["dty"])
    if f is None and c["ga"]: f = fam(c["ga"][0])
    if f == "Option": return some(a[0])
    if f == "Nondet": return a[0]
    return ok(a[0])


@model("NdResult::and_then")
def nd_and_then(e, st, a, c):
    x = a[0]
    res = []
    for s in e.assume(st.copy(), isv(x, "Ok")):
        res += e.apply(s, a[1], [vfield(x, "Ok", "0")], c["sp"], c["depth"], c["dty"])
    for s in e.assume(st.copy(), isv(x, "Err")):
        res.append(Out("ret", err(vfield(x, "Err", "0")), s))
    return res


@model("NdResult::get_internal", "NdResult::from_internal", "Nondet::get_internal")
def ident1(e, st, a, c): return a[0]


# ---- transparent functions
@model("[T]::iter", "[T]::to_vec", "[T]::into_iter", "Vec::as_slice", "RawList::iter", "r::RawList::iter", "Iterator::peekable", "Clone::clone", "GcCow::new", "GcCow::extract", "Into::into", "<String as From<&str>>::from", "<T as Into<U>>::into", "From::from", "<PathBuf as From<OsString>>::from", "<OsString as From<PathBuf>>::from", "Box::new", "hint::black_box", "black_box", "hint::must_use", "must_use",
       "Borrow::borrow", "AsRef::as_ref", "ToOwned::to_owned", "Path::to_path_buf", "PathBuf::as_path", "OsStr::to_os_string", "OsString::as_os_str", "PathBuf::into_boxed_path", "Deref::deref", "IntoIterator::into_iter", "Iterator::by_ref",
       "List::iter", "Map::iter", "Set::iter", "HashMap::iter", "BTreeMap::iter", "Size::bytes", "Align::bytes", "Iterator::copied", "Iterator::cloned",
       "Option::copied", "Option::cloned", "String::from_internal", "Int::from_u64", "Size::from_bytes_const", "iter", "ToString::to_string", "<T as ToString>::to_string", "String::as_str")
def ident(e, st, a, c):
    x = a[0]
    if c["tname"] == "IntoIterator::into_iter" and x.k == "mref": return x
    if c["tname"] in ("From::from", "ToString::to_string", "Into::into") and str(c.get("argty", "?")[0]).lstrip("&") == "char": x = written_char(val(st, e, x))
    if c["tname"] == "IntoIterator::into_iter" and c.get("argty") and fam(c["argty"][0]) == "Option": return one_or_none(val(st, e, x))
    return val(st, e, x)


def written_char(x):
    """the text of a character"""
    if x.k in ("str", "const") and len(x.a[0]) > 2 and x.a[0][0] == x.a[0][-1] == "'": return mk("str", x.a[0][1:-1])
    return x


def one_or_none(x):
    """an Option as the list of what is in it"""
    if x.k == "adt" and x.a[0] == "Option": return mk("array", (adtf(x, "0"),) if x.a[1] == "Some" else ())
    if x.k == "choice": return mk("choice", tuple((cs, one_or_none(v)) for cs, v in x.a[0]))
    return x


@model("[T]::iter_mut")
def m_iter_mut(e, st, a, c):
    x = val(st, e, a[0])
    if a[0].k == "mref": st.store[("itermut", x)] = a[0]      # writes through the elements are writes to this place
    return x


@model("DerefMut::deref_mut", "BorrowMut::borrow_mut", "AsMut::as_mut", "Option::as_mut", "Option::as_ref", "Option::as_deref")
def ident_mut(e, st, a, c):
    if c["tname"].endswith("deref_mut") and a[0].k == "mref":
        x = val(st, e, a[0])
        if x.k == "mref": return x      # the guard of a mutex
    return a[0]


@model("Mutex::lock", "Mutex::try_lock")
def m_lock(e, st, a, c):
    """a mutex that is a static: from here on its contents are what some thread left there; a poisoned mutex is left out"""
    x = val(st, e, a[0])
    if x.k != "sym" or not str(x.a[0]).startswith("static "): return None
    key = ("arg", x.a[0])
    n = sum(1 for ev in st.events if ev[0] == "lock" and ev[1] == x.a[0])
    st.events.append(("lock", x.a[0], c["sp"]))
    st.store[key] = sym(x.a[0][7:] + "'" * n)
    return ok(mk("mref", key, ()))


@model("thread::spawn", "spawn")
def m_spawn(e, st, a, c):
    """what the new thread runs happens some time from now on, with no lock held"""
    if a[0].k not in ("closure", "fn"): return None
    n0, e0 = len(st.order), len(st.events)
    outs = e.apply(st.copy(), a[0], [], c["sp"], c["depth"])
    st.events.append(("thread", tuple((tuple(o.st.order[n0:]), tuple(o.st.events[e0:])) for o in outs), c["sp"]))
    return mk("call", "spawn", (a[0],))


@model("mem::drop", "drop")
def m_drop(e, st, a, c):
    e.unlock(st, a[0], c["sp"])
    return UNIT


def template(s):
    """rustc's byte encoding of a format string -> [literal | (argument | None for the next one, spec)]"""
    try: b = s.encode("latin1").decode("unicode_escape").encode("latin1")
    except UnicodeError: return None
    i, out = 0, []
    while i < len(b):
        n = b[i]; i += 1
        if n == 0: return out if i == len(b) else None
        if n < 0x80: out.append(b[i:i + n].decode("latin1")); i += n
        elif n == 0x80 and i + 2 <= len(b):
            n = b[i] | b[i + 1] << 8; out.append(b[i + 2:i + 2 + n].decode("latin1")); i += 2 + n
        elif n >= 0xC0:
            k, arg = i, None
            for bit, w in ((1, 4), (2, 2), (4, 2)):
                if n & bit: k += w
            spec = b[i:k].hex()
            if n & 8: arg = b[k] | b[k + 1] << 8; k += 2
            out.append((arg, spec)); i = k
        else: return None
    return None


def written(s):
    """a literal as it is written in the source"""
    return s.replace("\\", "\\\\").replace("\n", "\\n")


@model("fmt::Arguments::from_str", "Arguments::from_str", "Arguments::new", "fmt::Arguments::new", "Arguments::new_const", "Arguments::new_v1")
def fmtargs(e, st, a, c):
    f = a[0]
    while f.k in ("ref", "mref"): f = val(st, e, f) if f.k == "mref" else f.a[0]
    if len(a) == 1 and f.k == "str": return f
    args = val(st, e, a[1]) if len(a) == 2 else None
    t = template(f.a[0]) if f.k == "str" else None
    if t is None or args.k != "array": return mk("call", "fmt", tuple([f] + [val(st, e, x) for x in a[1:]]))
    out, n = [], 0
    for p in t:
        if isinstance(p, str): out.append(mk("str", written(p))); continue
        i, spec = p
        if i is None: i = n
        n = i + 1
        x = args.a[0][i]
        out.append(mk("call", "formatted", (x, mk("str", spec))) if spec else x)
    return text(out)


@model("fmt::format", "format", "rt::Argument::new_display", "Argument::new_display")
def fmtx(e, st, a, c):
    x = val(st, e, a[0])
    if c["tname"].endswith("new_display") and c["ga"] and str(c["ga"][-1]).lstrip("&") == "char" and x.k == "str" and len(x.a[0]) > 2 and x.a[0][0] == x.a[0][-1] == "'": return mk("str", x.a[0][1:-1])
    return x


@model("Argument::new_debug", "rt::Argument::new_debug", "Argument::new_lower_hex", "rt::Argument::new_lower_hex", "Argument::from_usize", "rt::Argument::from_usize")
def fmtdbg(e, st, a, c): return mk("call", c["tname"].rsplit("::", 1)[-1], tuple(val(st, e, x) for x in a))


def joined(xs, sep):
    """the strings of a list one after the other, sep in between"""
    if xs.k == "array":
        out = []
        for i, x in enumerate(xs.a[0]): out += ([sep] if i else []) + [x]
        return text(out)
    if sep.k == "str" and not sep.a[0] and xs.k == "maplist":
        src, el, body = xs.a
        if src.k == "push" and el is element(src, 0):       # the last one by itself
            before, x = src.a
            here = subst(body, {el: element(before, 0)})
            while before.k == "maplist": before = before.a[0]
            return text((joined(numbered(before, element(before, 0), here), sep), subst(body, {el: x})))
        if src.k == "enum" and body.k == "choice" and len(body.a[0]) == 2:
            p = element(src, 0).a[0][0]
            later = ge(p, intt(1)); first = neg(later)
            for (c1, b1), (c2, b2) in (body.a[0], body.a[0][::-1]):
                c1, c2 = ([first if x in (le(p, intt(0)), eq(p, intt(0))) else later if x is neg(eq(p, intt(0))) else x for x in cs] for cs in (c1, c2))
                if first not in c1 or later not in c2 or set(c1) - {first} - set(el_facts(src, el)) or set(c2) - {later} - set(el_facts(src, el)): continue
                between = ahead(b2, b1)
                if between is not None and not contains(b1, p): return mk("call", "join", (mk("maplist", src.a[0], element(src.a[0], 0), b1) if src.a[0].k != "maplist" else mk("maplist", src.a[0].a[0], element(src.a[0].a[0], 0), b1), between))
    return mk("call", "join", (xs, sep))


def ahead(x, y):
    """what the text x has in front of the text y"""
    if x.k != "txt" or x.a[0][0].k != "str": return None
    s = x.a[0][0].a[0]
    for i in range(1, len(s) + 1):
        if text((mk("str", s[:i]), y)) is x: return mk("str", s[:i])
    return None


def appended(e, st, place, x, c):
    e.storeto(st, place.a[0], place.a[1], text((val(st, e, place), x)), c["sp"])
    return UNIT


@model("String::push_str", "String::push", "String::write_fmt", "Write::write_fmt", "Write::write_str", "Write::write_char")
def m_push_str(e, st, a, c):
    if a[0].k != "mref" or "String" not in str(c["ga"][:1] or "String") and c["tname"].startswith("Write"): return None
    x = val(st, e, a[1])
    if c["tname"].endswith(("push", "write_char")): x = written_char(x)
    u = appended(e, st, a[0], x, c)
    return ok(u) if c["tname"].startswith(("Write", "String::write")) else u


@model("String::new", "String::with_capacity")
def m_strnew(e, st, a, c): return mk("str", "")


@model("[T]::join", "[T]::concat")
def m_join(e, st, a, c): return joined(L(e, st, a[0]), val(st, e, a[1]) if len(a) > 1 else mk("str", ""))


@model("Size::bits")
def bits(e, st, a, c): return scale(val(st, e, a[0]), 8)


@model("Size::is_zero")
def size_is_zero(e, st, a, c): return eq(val(st, e, a[0]), intt(0))


@model("Size::from_bytes")
def size_from_bytes(e, st, a, c):
    x = val(st, e, a[0])
    if x.k == "int": return some(x) if x.a[0] >= 0 else NONE
    res = []
    for s in e.assume(st.copy(), ge0(x)):
        res.append(Out("ret", some(x), s))
    for s in e.assume(st.copy(), neg(ge0(x))): res.append(Out("ret", NONE, s))
    return res


@model("Size::from_bits_const")
def size_from_bits_const(e, st, a, c):
    x = a[0]
    if x.k == "int" and x.a[0] % 8 == 0: return some(intt(x.a[0] // 8))
    return None


@model("Align::from_bits_const")
def align_from_bits_const(e, st, a, c):
    x = a[0]
    if x.k == "int" and x.a[0] % 8 == 0: return some(intt(x.a[0] // 8))
    return None


@model("Align::from_bytes")
def align_from_bytes(e, st, a, c):
    x = val(st, e, a[0])
    if x.k == "int": return some(x) if x.a[0] > 0 and x.a[0] & (x.a[0] - 1) == 0 else NONE
    p = mk("call", "Int::is_power_of_two", (x,))
    res = []
    for s in e.assume(st.copy(), p): res.append(Out("ret", some(x), s))
    for s in e.assume(st.copy(), neg(p)): res.append(Out("ret", NONE, s))
    return res


@model("Align::is_aligned")
def is_aligned(e, st, a, c):
    return eq(mk("call", "Int::rem", (val(st, e, a[1]), val(st, e, a[0]))), intt(0))


# ---- arithmetic
@model("Add::add")
def m_add(e, st, a, c):
    if c["ga"][:1] and c["ga"][0].endswith("::String"): return text((val(st, e, a[0]), val(st, e, a[1])))
    r = add(val(st, e, a[0]), val(st, e, a[1]))
    return r


@model("Sub::sub")
def m_sub(e, st, a, c): return sub(val(st, e, a[0]), val(st, e, a[1]))


@model("Mul::mul")
def m_mul(e, st, a, c):
    r = mul(val(st, e, a[0]), val(st, e, a[1]))
    return r


@model("Neg::neg")
def m_neg(e, st, a, c): return scale(val(st, e, a[0]), -1)


@model("Div::div", "Rem::rem", "BitAnd::bitand", "BitOr::bitor", "BitXor::bitxor", "Shl::shl", "Shr::shr")
def m_op(e, st, a, c):
    n = c["tname"].split("::")[1]
    x, y = val(st, e, a[0]), val(st, e, a[1])
    if n in ("bitand", "bitor") and (e.isbool(x) or e.isbool(y)): return conj(x, y) if n == "bitand" else disj(x, y)
    if n in ("bitand", "bitor", "bitxor") and y.id < x.id: x, y = y, x
    return mk("call", "Int::" + n, (x, y))


@model("Not::not")
def m_not(e, st, a, c):
    x = val(st, e, a[0])
    if c["dty"] == "bool" or e.isbool(x): return neg(x)
    return mk("call", "Int::not", (x,))


@model("AddAssign::add_assign", "SubAssign::sub_assign", "MulAssign::mul_assign", "ShrAssign::shr_assign", "ShlAssign::shl_assign",
       "DivAssign::div_assign", "RemAssign::rem_assign")
def m_assign(e, st, a, c):
    op = c["tname"].split("::")[1].split("_")[0]
    if c["ga"][:1] and c["ga"][0].endswith("::String") and a[0].k == "mref": return appended(e, st, a[0], val(st, e, a[1]), c)
    x, y = val(st, e, a[0]), val(st, e, a[1])
    r = add(x, y) if op == "add" else sub(x, y) if op == "sub" else mul(x, y) if op == "mul" else mk("call", "Int::" + op, (x, y))
    if a[0].k == "mref": e.storeto(st, a[0].a[0], a[0].a[1], r, c["sp"])
    return UNIT


@model("PartialEq::eq")
def m_eq(e, st, a, c): return eq(val(st, e, a[0]), val(st, e, a[1]))


@model("PartialEq::ne")
def m_ne(e, st, a, c): return neg(eq(val(st, e, a[0]), val(st, e, a[1])))


@model("PartialOrd::le")
def m_le(e, st, a, c): return le(val(st, e, a[0]), val(st, e, a[1]))


@model("PartialOrd::lt")
def m_lt(e, st, a, c): return lt(val(st, e, a[0]), val(st, e, a[1]))


@model("PartialOrd::ge")
def m_ge(e, st, a, c): return ge(val(st, e, a[0]), val(st, e, a[1]))


@model("PartialOrd::gt")
def m_gt(e, st, a, c): return gt(val(st, e, a[0]), val(st, e, a[1]))


@model("Ord::max", "Ord::min", "cmp::max", "cmp::min", "max", "min")
def m_maxmin(e, st, a, c):
    n = c["tname"].split("::")[-1]
    x, y = val(st, e, a[0]), val(st, e, a[1])
    if x is y: return x
    d = decide(st.facts, ge(x, y))
    if d is not None: return x if d == (n == "max") else y
    if y.id < x.id: x, y = y, x
    r = mk("call", n, (x, y))
    if x in NONNEG and y in NONNEG: NONNEG.add(r)
    return r


@model("Ord::cmp", "PartialOrd::partial_cmp")
def m_cmp(e, st, a, c):
    x, y = val(st, e, a[0]), val(st, e, a[1])
    if getattr(e, "cmpsym", False): return mk("cmp", x, y)
    res = []
    for V, f in (("Less", lt(x, y)), ("Equal", eq(x, y)), ("Greater", gt(x, y))):
        for s in e.assume(st.copy(), f):
            if V != "Equal":
                ss = e.assume(s, neg(eq(x, y)))
                if not ss: continue
                s = ss[0]
            r = adt("Ordering", V)
            res.append(Out("ret", some(r) if "partial" in c["tname"] else r, s))
    return res


@model("Ordering::is_lt", "Ordering::is_le", "Ordering::is_gt", "Ordering::is_ge", "Ordering::is_eq", "Ordering::is_ne")
def m_ord(e, st, a, c):
    x = val(st, e, a[0])
    n = c["tname"].split("_")[-1]
    L, E, G = isv(x, "Less"), isv(x, "Equal"), isv(x, "Greater")
    return {"lt": L, "le": neg(G), "gt": G, "ge": neg(L), "eq": E, "ne": neg(E)}[n]


@model("Int::in_bounds")
def m_in_bounds(e, st, a, c):
    return mk("call", "Int::in_bounds", tuple(val(st, e, x) for x in a))


# ---- options
@model("Int::try_to_usize", "Int::try_to_u64", "Int::try_to_u128", "Int::try_to_i128")
def m_tryto(e, st, a, c): return some(val(st, e, a[0]))


@model("Name::get_internal")
def m_nameget(e, st, a, c):
    x = val(st, e, a[0])
    if x.k == "call" and x.a[0] == "Name::from_internal": return x.a[1][0]
    return mk("call", "Name::get_internal", (x,))


@model("Option::is_some")
def m_is_some(e, st, a, c): return isv(val(st, e, a[0]), "Some")


@model("Option::is_none")
def m_is_none(e, st, a, c): return neg(isv(val(st, e, a[0]), "Some"))


@model("Result::is_ok")
def m_is_ok(e, st, a, c): return isv(val(st, e, a[0]), "Ok")


@model("Result::is_err")
def m_is_err(e, st, a, c): return neg(isv(val(st, e, a[0]), "Ok"))


def unwrap(good):
    def f(e, st, a, c):
        x = val(st, e, a[0])
        res = []
        r = vfield(x, good, "0")
        if a[0].k == "mref" and "mut " in c["dty"][:12] and r.k != "mref": r = mk("mref", a[0].a[0], a[0].a[1] + (("vf", good, "0"),))
        for s in e.assume(st.copy(), isv(x, good)): res.append(Out("ret", r, s))
        for s in e.assume(st.copy(), neg(isv(x, good))):
            o = Out("panic", mk("panic", c["tname"], ""), s, c["sp"]); o.tag = "panic"
            res.append(o)
        return res
    return f


MODELS["Option::unwrap"] = MODELS["Option::expect"] = unwrap("Some")
MODELS["Result::unwrap"] = MODELS["Result::expect"] = unwrap("Ok")


@model("OptionExt::try_map")
def opt_try_map(e, st, a, c):
    x = val(st, e, a[0])
    res = []
    for s in e.assume(st.copy(), isv(x, "Some")):
        for o in e.apply(s, a[1], [vfield(x, "Some", "0")], c["sp"], c["depth"]):
            if o.kind != "ret": res.append(o); continue
            r = o.val
            for s2 in e.assume(o.st.copy(), isv(r, "Ok")): res.append(Out("ret", ok(some(vfield(r, "Ok", "0"))), s2))
            for s2 in e.assume(o.st.copy(), neg(isv(r, "Ok"))): res.append(Out("ret", err(vfield(r, "Err", "0")), s2))
    for s in e.assume(st.copy(), isv(x, "None")): res.append(Out("ret", ok(NONE), s))
    return res


# ---- closures
@model("FnOnce::call_once", "FnMut::call_mut", "Fn::call")
def m_callf(e, st, a, c):
    ar = a[1]
    xs = list(ar.a[0]) if ar.k == "tuple" else [ar]
    return e.apply(st, a[0], xs, c["sp"], c["depth"], c["dty"])


# ---- lists, maps, sets
def L(e, st, a): return val(st, e, a)


@model("List::new", "Map::new", "Set::new", "Default::default", "Vec::new", "Vec::with_capacity")
def m_new(e, st, a, c):
    k = c["tname"].split("::")[0]
    if k == "Default":
        k = canon(c["ga"][0].split("<")[0]) if c["ga"] else ""
        if k in ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "Int"): return intt(0)
        if k == "bool": return FALSE
        if k in ("String", "str", "&str"): return mk("str", "")
        if k not in ("List", "Vec", "Map", "Set"):
            if c["res"] and e.p.fn(c["res"]): return None
            return NONE if k == "Option" else mk("const", "default " + k)
    return mk("array", ()) if k in ("List", "Vec") else mk("empty", k)


@model("[T]::len", "r::RawList::len", "HashMap::len", "BTreeMap::len", "List::len", "Map::len", "Set::len", "Vec::len", "ExactSizeIterator::len")
def m_len(e, st, a, c):
    r = length(L(e, st, a[0]))
    return r


@model("Iterator::count")
def m_count(e, st, a, c):
    x = L(e, st, a[0])
    if x.k in ("filter", "choice") or (x.k == "call" and x.a[0] in ("Iterator::filter_map", "Iterator::filter", "flat_map", "Iterator::flat_map")): return None
    return length(x)


@model("r::Size::bytes", "r::Size::bytes_usize", "r::Size::bits")
def m_rsbytes(e, st, a, c):
    return intt(0) if L(e, st, a[0]).k == "const" and L(e, st, a[0]).a[0] == "r::Size::ZERO" else None


def length(x):
    if x.k == "array": return intt(len(x.a[0]))
    if x.k == "repeat" and isinstance(x.a[1], T): return x.a[1]
    if x.k == "push": return add(length(x.a[0]), intt(1))
    if x.k == "maplist": return length(x.a[0])
    if x.k == "concat": return add(length(x.a[0]), length(x.a[1]))
    if x.k == "upd": return length(x.a[0])
    if x.k == "subslice": return x.a[2]
    if x.k == "enum": return length(x.a[0])
    if x.k == "pop": return sub(length(x.a[0]), intt(1))
    if x.k in ("rev", "sorted"): return length(x.a[0])
    if x.k == "lvl": return length(x.a[1])
    r = mk("call", "len", (x,))
    NONNEG.add(r)
    return r


@model("[T]::is_empty", "List::is_empty", "Map::is_empty", "Set::is_empty", "Vec::is_empty")
def m_is_empty(e, st, a, c): return eq(length(L(e, st, a[0])), intt(0))


@model("List::from_elem")
def m_from_elem(e, st, a, c): return mk("repeat", a[0], a[1])


@model("List::push", "Vec::push", "List::push_back")
def m_push(e, st, a, c):
    x = a[0]
    old = val(st, e, x)
    new = mk("array", old.a[0] + (a[1],)) if old.k == "array" else mk("push", old, a[1])
    if x.k == "mref": e.storeto(st, x.a[0], x.a[1], new, c["sp"])
    st.events.append(("op", "push", old, a[1], c["sp"]))
    return UNIT


@model("List::pop")
def m_pop(e, st, a, c):
    x = a[0]
    old = val(st, e, x)
    if old.k == "push":
        e.storeto(st, x.a[0], x.a[1], old.a[0], c["sp"])
        return some(old.a[1])
    n = length(old)
    res = []
    for s in e.assume(st.copy(), neg(eq(n, intt(0)))):
        last = index(old, sub(n, intt(1)))
        if x.k == "mref": e.storeto(s, x.a[0], x.a[1], mk("pop", old), c["sp"])
        s.events.append(("op", "pop", old, last, c["sp"]))
        res.append(Out("ret", some(last), s))
    for s in e.assume(st.copy(), eq(n, intt(0))): res.append(Out("ret", NONE, s))
    return res


def opt_at(e, st, x, i, present):
    """Option<element i of x>, partitioned on whether it is there"""
    res = []
    for s in e.assume(st.copy(), present): res.append(Out("ret", some(index(x, i)), s))
    for s in e.assume(st.copy(), neg(present)): res.append(Out("ret", NONE, s))
    return res


@model("List::last", "List::first", "[T]::last", "[T]::first")
def m_last(e, st, a, c):
    x = L(e, st, a[0])
    last = c["tname"].endswith("::last")
    if last and x.k == "push": return some(x.a[1])
    n = length(x)
    return opt_at(e, st, x, sub(n, intt(1)) if last else intt(0), neg(eq(n, intt(0))))


@model("List::split_first", "List::split_last")
def m_split(e, st, a, c):
    return mk("call", c["tname"], (L(e, st, a[0]),))


@model("List::get", "[T]::get")
def m_lget(e, st, a, c):
    x = L(e, st, a[0])
    if a[1].k == "adt": return None
    return opt_at(e, st, x, a[1], conj(ge0(a[1]), lt(a[1], length(x))))


@model("List::index_at", "Index::index")
def m_lidx(e, st, a, c):
    x = L(e, st, a[0])
    st.events.append(("index", x, a[1], c["sp"]))
    return index(x, a[1])


@model("List::set")
def m_lset(e, st, a, c):
    x = a[0]
    st.events.append(("index", val(st, e, x), a[1], c["sp"]))
    e.storeto(st, x.a[0], x.a[1] + (("idx", a[1]),), a[2], c["sp"])
    return UNIT


@model("IndexMut::index_mut")
def m_index_mut(e, st, a, c):
    x = a[0]
    if x.k != "mref" or len(a) != 2 or c["argty"][1] != "usize": return None
    st.events.append(("index", val(st, e, x), a[1], c["sp"]))
    return mk("mref", x.a[0], x.a[1] + (("idx", a[1]),))


@model("List::mutate_at", "List::try_mutate_at")
def m_mutate(e, st, a, c):
    x = a[0]
    if x.k != "mref":
        st.events.append(("write", ("sym", show(x)), (), UNIT, c["sp"]))
        key = ("sym", show(x))
        st.store.setdefault(key, x)
        x = mk("mref", key, ())
    st.events.append(("index", val(st, e, x), a[1], c["sp"]))
    r = mk("mref", x.a[0], x.a[1] + (("idx", a[1]),))
    return e.apply(st, a[2], [r], c["sp"], c["depth"], c["dty"])


@model("catch_unwind", "panic::catch_unwind", "std::panic::catch_unwind")
def m_catch(e, st, a, c):
    f = a[0]
    if f.k == "adt" and f.a[0].endswith("AssertUnwindSafe"): f = f.a[2][0][1]
    res = [Out("ret", err(mk("sym", "PANIC")), st.copy())]
    for o in e.apply(st, f, [], c["sp"], c["depth"]):
        if o.kind == "ret": o = Out("ret", ok(o.val), o.st)
        res.append(o)
    return res


@model("Extend::extend")
def m_extend(e, st, a, c):
    x = a[0]; old = val(st, e, x)
    if not str(c["argty"][0]).lstrip("&").replace("mut ", "").startswith(("std::vec::Vec", "alloc::vec::Vec", "Vec")): return None
    if old.k in ("call", "eff") and "borrow_mut" in old.a[0]: x = old        # through the guard of a cell
    if x.k != "mref": return e.opaque_call(st, "Vec::extend_from_slice", [x, L(e, st, a[1])], c["sp"], c["dty"])
    src = L(e, st, a[1])
    if src.k == "array" and old.k == "array": new = mk("array", old.a[0] + src.a[0])
    elif old.k == "array" and not old.a[0]: new = src
    else: new = mk("concat", old, src)
    e.storeto(st, x.a[0], x.a[1], new, c["sp"])
    return UNIT


@model("List::append")
def m_append(e, st, a, c):
    x = a[0]; old = val(st, e, x)
    o = L(e, st, a[1])
    if o.k == "array":
        new = mk("array", old.a[0] + o.a[0]) if old.k == "array" else None
        if new is None:
            new = old
            for y in o.a[0]: new = mk("push", new, y)
    else: new = mk("concat", old, o)
    e.storeto(st, x.a[0], x.a[1], new, c["sp"])
    return UNIT


@model("List::subslice_with_length")
def m_subslice(e, st, a, c):
    x = L(e, st, a[0])
    st.events.append(("subslice", x, a[1], a[2], c["sp"]))
    return mk("subslice", x, a[1], a[2])


@model("List::write_subslice_at_index")
def m_wsub(e, st, a, c):
    x = a[0]; old = val(st, e, x)
    src = L(e, st, a[2])
    st.events.append(("wsubslice", old, a[1], src, c["sp"]))
    e.storeto(st, x.a[0], x.a[1], mk("wsub", old, a[1], src), c["sp"])
    return UNIT


@model("List::zip", "Iterator::zip")
def m_zip(e, st, a, c):
    x, y = L(e, st, a[0]), L(e, st, a[1])
    for r, o, first in ((x, y, True), (y, x, False)):
        if r.k == "adt" and r.a[0] == "RangeFrom" and adtf(r, "start").k == "int" and not (o.k == "adt" and o.a[0].startswith("Range")):
            # numbering the items
            en = mk("enum", o); el = element(en, 0)
            at, it = add(proj(el, ("f", "0")), adtf(r, "start")), proj(el, ("f", "1"))
            if first and adtf(r, "start") is intt(0): return en
            return mk("maplist", en, el, tup(at, it) if first else tup(it, at))
    return mk("zip", x, y)


@model("Iterator::enumerate")
def m_enum(e, st, a, c): return mk("enum", L(e, st, a[0]))


@model("Iterator::rev")
def m_rev(e, st, a, c): return mk("rev", L(e, st, a[0]))


@model("Iterator::chain")
def m_chain(e, st, a, c):
    x, y = L(e, st, a[0]), L(e, st, a[1])
    if x.k == "array" and y.k == "array": return mk("array", x.a[0] + y.a[0])
    return mk("concat", x, y)


@model("iter::once", "once")
def m_once(e, st, a, c): return mk("array", (a[0],))


@model("Iterator::collect", "FromIterator::from_iter", "slice::into_vec", "box_assume_init_into_vec_unsafe")
def m_collect(e, st, a, c):
    src = L(e, st, a[0])
    if c["tname"].endswith("collect") and c["ga"][-1:] and c["ga"][-1].endswith("::String"): return joined(src, mk("str", ""))
    return collected(src, c)


def collected(src, c):
    if src.k == "choice": return mk("choice", tuple((cs, collected(v, c)) for cs, v in src.a[0]))
    if c["tname"].endswith(("collect", "from_iter")) and src.k == "array":
        ty = str(c["dty"]).split("<")[0].rsplit("::", 1)[-1]
        xs = src.a[0]
        if not xs: return mk("empty", ty) if ty in ("Map", "HashMap", "BTreeMap", "Set") else src
        if ty in ("Map", "HashMap", "BTreeMap") and all(x.k == "tuple" and len(x.a[0]) == 2 for x in xs) and len({x.a[0][0] for x in xs}) == len(xs):
            r = mk("empty", "Map")
            for x in xs: r = mk("minsert", r, *x.a[0])
            return r
    return src


@model("Map::values", "Map::keys", "HashMap::values", "HashMap::keys", "BTreeMap::values", "BTreeMap::keys")
def m_values(e, st, a, c):
    return mk("mapproj", L(e, st, a[0]), "1" if c["tname"].endswith("values") else "0")


def optget(m, k):
    """term of Map::get(m, k), looking through known updates"""
    if m.k == "upd" and m.a[1][0] == "idx":
        if m.a[1][1] is k: return some(m.a[2])
    if m.k == "minsert":
        if m.a[1] is k: return some(m.a[2])
    if m.k == "mremove" and m.a[1] is k: return NONE
    if m.k == "empty": return NONE
    return mk("call", "Map::get", (m, k))


@model("Map::get")
def m_mget(e, st, a, c): return optget(L(e, st, a[0]), L(e, st, a[1]))


@model("HashMap::contains_key", "BTreeMap::contains_key")
def m_hmcontains(e, st, a, c): return isv(mk("call", c["tname"].split("::")[0] + "::get", (L(e, st, a[0]), L(e, st, a[1]))), "Some")


@model("Map::contains_key")
def m_mcontains(e, st, a, c): return isv(optget(L(e, st, a[0]), L(e, st, a[1])), "Some")


@model("Map::index_at")
def m_midx(e, st, a, c):
    m, k = L(e, st, a[0]), L(e, st, a[1])
    st.events.append(("mindex", m, k, c["sp"]))
    g = optget(m, k)
    return vfield(g, "Some", "0")


@model("Map::insert", "Map::try_insert")
def m_minsert(e, st, a, c):
    x = a[0]; old = val(st, e, x)
    g = optget(old, a[1])
    st.events.append(("op", "minsert", old, (a[1], a[2]), c["sp"]))
    if c["tname"] == "Map::insert":
        e.storeto(st, x.a[0], x.a[1], mk("minsert", old, a[1], a[2]), c["sp"])
        return g
    res = []
    for s in e.assume(st.copy(), isv(g, "Some")): res.append(Out("ret", err(UNIT), s))
    for s in e.assume(st.copy(), neg(isv(g, "Some"))):
        e.storeto(s, x.a[0], x.a[1], mk("minsert", old, a[1], a[2]), c["sp"])
        res.append(Out("ret", ok(UNIT), s))
    return res


@model("Map::remove")
def m_mremove(e, st, a, c):
    x = a[0]; old = val(st, e, x)
    e.storeto(st, x.a[0], x.a[1], mk("mremove", old, L(e, st, a[1])), c["sp"])
    st.events.append(("op", "mremove", old, a[1], c["sp"]))
    return optget(old, L(e, st, a[1]))


def scontains(s, x):
    if s.k == "empty": return FALSE
    if s.k == "sinsert":
        if s.a[1] is x: return TRUE
    return mk("call", "Set::contains", (s, x))


@model("Set::contains")
def m_scontains(e, st, a, c): return scontains(L(e, st, a[0]), L(e, st, a[1]))


@model("Set::insert", "Set::try_insert", "Set::remove")
def m_sinsert(e, st, a, c):
    x = a[0]; old = val(st, e, x); y = L(e, st, a[1])
    n = c["tname"].split("::")[1]
    st.events.append(("op", "s" + n, old, y, c["sp"]))
    if n == "remove":
        e.storeto(st, x.a[0], x.a[1], mk("sremove", old, y), c["sp"])
        return UNIT
    if n == "insert":
        e.storeto(st, x.a[0], x.a[1], mk("sinsert", old, y), c["sp"])
        return UNIT
    res = []
    g = scontains(old, y)
    for s in e.assume(st.copy(), g): res.append(Out("ret", err(UNIT), s))
    for s in e.assume(st.copy(), neg(g)):
        e.storeto(s, x.a[0], x.a[1], mk("sinsert", old, y), c["sp"])
        res.append(Out("ret", ok(UNIT), s))
    return res


@model("List::reverse", "List::sort_by_key", "[T]::reverse", "[T]::sort_by_key", "[T]::sort", "[T]::sort_unstable", "[T]::sort_unstable_by_key", "[T]::sort_by_cached_key", "[T]::sort_by", "[T]::sort_unstable_by")
def m_reorder(e, st, a, c):
    x = a[0]; old = val(st, e, x)
    n = "rev" if c["tname"].endswith("reverse") else "sorted"
    key = UNIT
    if n == "sorted" and len(a) == 1:
        el = mk("elem", old, 0)
        e.storeto(st, x.a[0], x.a[1], mk("sorted", old, mk("key", el, el)), c["sp"])
    elif n == "sorted" and c["tname"].endswith("_by"):
        # sort_by(|a, b| key(a).cmp(key(b))) is sort_by_key(key)
        p, q = mk("elem", old, 0), mk("elem", old, 1)
        e.cmpsym = True
        try: o = e.apply(st.copy(), a[1], [p, q], c["sp"], c["depth"])
        finally: e.cmpsym = False
        r = o[0].val if len(o) == 1 and o[0].kind == "ret" else UNIT
        if r.k == "cmp" and subst(r.a[0], {p: q}) is r.a[1]:
            e.storeto(st, x.a[0], x.a[1], mk("sorted", old, mk("key", p, r.a[0])), c["sp"])
        else: return None
    elif n == "sorted":
        el = element(old, 0)
        o = e.apply(st.copy(), a[1], [el], c["sp"], c["depth"])
        key = mk("key", el, o[0].val) if len(o) == 1 else UNIT
        e.storeto(st, x.a[0], x.a[1], mk("sorted", old, key), c["sp"])
    else:
        e.storeto(st, x.a[0], x.a[1], mk("rev", old), c["sp"])
    return UNIT


# ---- iteration over a representative element
def position(src, n):
    while src.k in ("maplist", "enum"): src = src.a[0]
    if src.k == "adt" and src.a[0] == "Range" and adtf(src, "start") is intt(0): return mk("elem", src, n)
    return mk("pos", src, n)


def element(src, n):
    if src.k == "enum": return tup(position(src.a[0], n), element(src.a[0], n))
    if src.k == "zip": return tup(element(src.a[0], n), element(src.a[1], n))
    if src.k == "rev": return element(src.a[0], n)
    if src.k == "mapproj": return field(element(src.a[0], n), src.a[1])
    if src.k == "repeat": return src.a[0]
    if src.k == "maplist": return subst(src.a[2], {src.a[1]: element(src.a[0], n)})
    if src.k == "subslice": return mk("elem", src, n)
    if src.k == "sorted": return element(src.a[0], n)
    if src.k == "adt" and src.a[0].startswith("Range"):
        r = mk("elem", src, n)
        return r
    if src.k == "filter":
        return subst(src.a[1], {}) if False else src.a[1]
    return mk("elem", src, n)


def el_facts(src, el):
    """what is known about a representative element"""
    if src.k == "filter": return list(src.a[2])
    if src.k == "adt" and src.a[0] == "Range":
        return [ge(el, adtf(src, "start")), lt(el, adtf(src, "end"))]
    if src.k == "enum":
        return [ge0(el.a[0][0]), lt(el.a[0][0], length(src.a[0]))] + el_facts(src.a[0], el.a[0][1])
    if src.k == "zip": return el_facts(src.a[0], el.a[0][0]) + el_facts(src.a[1], el.a[0][1])
    if src.k in ("rev", "sorted"): return el_facts(src.a[0], el)
    return []


def ordered(src):
    """are elements at the same position the same elements? (maps and sets have no order)"""
    return src.k not in ("sym", "filter") or True


def numbered(src, el, body):
    """the image of src, whose body may mention the position of the element"""
    if src.k != "enum" and position(src, 0) is not el and contains(body, position(src, 0)):
        en = mk("enum", src); ee = element(en, 0)
        return mk("maplist", en, ee, subst(body, {el: ee.a[0][1]}))
    return mk("maplist", src, el, body)


def fixed(src, n=4):
    """list literal: iterate exactly"""
    if src.k == "array" and len(src.a[0]) <= n: return list(src.a[0])
    return None


@model("Iterator::next")
def m_next(e, st, a, c):
    x = a[0]
    src = val(st, e, x)
    if x.k == "mref" and x.a[0] in e.concrete and not x.a[1] and src.k == "array":
        if not src.a[0]: return NONE
        e.storeto(st, x.a[0], (), mk("array", src.a[0][1:]))
        return some(src.a[0][0])
    n = st.elems.get(src, 0)
    res = []
    el = element(src, n)
    s = st.copy()
    s.events.append(("loopend", src, el, c["sp"]))
    res.append(Out("ret", NONE, s))
    if src.k == "array" and not src.a[0]: return res
    s = st.copy()
    s.elems[src] = n + 1
    ss = [s]
    for f in el_facts(src, el): ss = [z for y in ss for z in e.assume(y, f)]
    for s in ss:
        s.events.append(("iter", src, el, c["sp"]))
        res.append(Out("ret", some(el), s))
    return res


def quant(e, st, src, clo, c, mkargs=lambda el: [el]):
    n = st.elems.get(src, 0)
    el = element(src, n)

    def call(s, el):
        ss = [s]
        for f in el_facts(src, el): ss = [z for y in ss for z in e.assume(y, f)]
        r = []
        for s in ss: r += e.apply(s, clo, mkargs(el), c["sp"], c["depth"])
        return r
    st2 = st.copy()
    st2.elems[src] = n + 1
    outs, n0, e0, base = e.each(st2, src, el, call, c["sp"], "each:%s" % c["tname"])
    for o in outs: o.st.elems[src] = n
    base.elems[src] = n
    return el, outs, n0, e0, base


def boolsplit(e, outs):
    t, f, other = [], [], []
    for o in outs:
        if o.kind != "ret": other.append(o); continue
        for s in e.assume(o.st.copy(), o.val): t.append(Out("ret", TRUE, s))
        for s in e.assume(o.st.copy(), neg(o.val)): f.append(Out("ret", FALSE, s))
    return t, f, other


def alts(outs, n0, e0): return tuple((tuple(o.st.order[n0:]), tuple(o.st.events[e0:])) for o in outs)


@model("List::any", "Iterator::any", "Set::any")
def m_any(e, st, a, c, negated=False):
    src = L(e, st, a[0])
    xs = fixed(src, 32)
    if xs is not None:
        cur = [st]; res = []
        for x in xs:
            nxt = []
            for s in cur:
                t, f, o = boolsplit(e, e.apply(s, a[1], [x], c["sp"], c["depth"]))
                if negated: t, f = f, t
                res += o
                res += [Out("ret", boolt(not negated), y.st) for y in t]
                nxt += [y.st for y in f]
            cur = nxt
        return res + [Out("ret", boolt(negated), s) for s in cur]
    el, outs, n0, e0, base = quant(e, st, src, a[1], c)
    t, f, other = boolsplit(e, outs)
    if negated: t, f = f, t
    res = list(other)
    for o in t: res.append(Out("ret", boolt(not negated), o.st))
    s = base.copy()
    e.add_forall(s, src, el, alts(f, n0, e0))
    res.append(Out("ret", boolt(negated), s))
    return res


@model("List::all", "Iterator::all")
def m_all(e, st, a, c): return m_any(e, st, a, c, negated=True)


@model("Iterator::find", "Iterator::position", "Iterator::find_map")
def m_find(e, st, a, c):
    src = L(e, st, a[0])
    el, outs, n0, e0, base = quant(e, st, src, a[1], c)
    res = []
    if c["tname"].endswith("find_map"):
        no = []
        for o in outs:
            if o.kind != "ret": res.append(o); continue
            for s in e.assume(o.st.copy(), isv(o.val, "Some")): res.append(Out("ret", some(vfield(o.val, "Some", "0")), s))
            for s in e.assume(o.st.copy(), neg(isv(o.val, "Some"))): no.append(Out("ret", NONE, s))
    else:
        t, no, res = boolsplit(e, outs)
        for o in t: res.append(Out("ret", some(el if c["tname"].endswith("find") else position(src, 0)), o.st))
    s = base.copy()
    e.add_forall(s, src, el, alts(no, n0, e0))
    res.append(Out("ret", NONE, s))
    return res


@model("r::ArrayIterator::next")
def m_arrnext(e, st, a, c):
    """the fields of a constant array, one by one: Ok(Some((position, field)))"""
    res = m_next(e, st, a, dict(c, tname="Iterator::next"))
    out = []
    for o in res:
        v = o.val
        if v.k == "adt" and v.a[1] == "Some": v = some(tup(mk("call", "array_position", (v.a[2][0][1],)), v.a[2][0][1]))
        out.append(Out(o.kind, mk("interp_ok", v), o.st))
    return out


@model("r::InterpResult::unwrap")
def m_interp_unwrap(e, st, a, c):
    x = val(st, e, a[0])
    return x.a[0] if x.k == "interp_ok" else None


@model("Iterator::filter", "Iterator::filter_map", "Iterator::flat_map", "Iterator::take_while", "Iterator::skip_while", "List::flat_map")
def m_filter(e, st, a, c):
    src = L(e, st, a[0])
    el, outs, n0, e0, base = quant(e, st, src, a[1], c)
    n = c["tname"].split("::")[1]
    cond = lambda o: tuple((x if v else neg(x)) for x, v in o.st.order[n0:])
    other = [o for o in outs if o.kind != "ret"]
    # what calling the closure does besides answering
    acts = any(o.st.events[e0:] for o in outs) or any(base.store.get(k) is not v for k, v in st.store.items())
    if n == "filter":
        t, f, _ = boolsplit(e, outs)
        if acts or other: v = mk("call", "Iterator::filter_map", (src, mk("choice", tuple((cond(o), some(el)) for o in t) + tuple((cond(o), NONE) for o in f))))
        elif len(t) == 1: return mk("filter", src, el, cond(t[0]))
        else: return mk("filter", src, el, (mk("oneof", tuple(cond(o) for o in t)),))
        rets = t + f
    else:
        rets = [o for o in outs if o.kind == "ret"]
        v = mk("call", c["tname"], (src, mk("choice", tuple((cond(o), o.val) for o in rets))))
        if not acts and not other: return v
    s = base.copy()
    e.add_forall(s, src, el, alts(rets, n0, e0))
    return other + [Out("ret", v, s)]


def mapped(src, el, outs, n0):
    vals = []
    for o in outs:
        if o.val not in vals: vals.append(o.val)
    if len(vals) == 1: body = vals[0]
    else: body = mk("choice", tuple((tuple((x if v else neg(x)) for x, v in o.st.order[n0:]), o.val) for o in outs))
    if src.k == "adt" and src.a[1] == "Range" and adtf(src, "start") is intt(0) and body.k != "choice" and el not in subterms(body): return mk("repeat", body, adtf(src, "end"))
    return mk("maplist", src, el, body)


@model("List::map", "Iterator::map", "List::map_with_idx")
def m_map(e, st, a, c):
    src = L(e, st, a[0])
    idx = c["tname"].endswith("idx")
    if idx: src = mk("enum", src)
    xs = fixed(src)
    if xs is not None and not idx:
        cur = [(st, ())]; res = []
        for x in xs:
            nxt = []
            for s, acc in cur:
                for o in e.apply(s, a[1], [x], c["sp"], c["depth"]):
                    if o.kind == "ret": nxt.append((o.st, acc + (o.val,)))
                    else: res.append(o)
            cur = nxt
        return res + [Out("ret", mk("array", acc), s) for s, acc in cur]
    el, outs, n0, e0, base = quant(e, st, src, a[1], c, (lambda el: list(el.a[0])) if idx else (lambda el: [el]))
    rets = [o for o in outs if o.kind == "ret"]
    res = [o for o in outs if o.kind != "ret"]
    s = base.copy()
    if len(rets) > 1 or any(o.st.order[n0:] or o.st.events[e0:] for o in rets):
        e.add_forall(s, src, el, alts(rets, n0, e0))
    if rets: res.append(Out("ret", mapped(src, el, rets, n0), s))
    elif not res: res.append(Out("ret", mk("array", ()), s))
    return res


@model("List::try_map", "Iterator::try_for_each")
def m_try_map(e, st, a, c):
    src = L(e, st, a[0])
    el, outs, n0, e0, base = quant(e, st, src, a[1], c)
    res = []; good = []
    opt = fam(c["dty"]) == "Option"
    G, B = ("Some", "None") if opt else ("Ok", "Err")
    for o in outs:
        if o.kind != "ret": res.append(o); continue
        for s in e.assume(o.st.copy(), isv(o.val, G)): good.append(Out("ret", vfield(o.val, G, "0"), s))
        for s in e.assume(o.st.copy(), neg(isv(o.val, G))):
            res.append(Out("ret", NONE if opt else err(vfield(o.val, "Err", "0")), s))
    s = base.copy()
    e.add_forall(s, src, el, alts(good, n0, e0))
    v = mapped(src, el, good, n0) if good else mk("array", ())
    if c["tname"].endswith("try_for_each"): v = UNIT
    res.append(Out("ret", some(v) if opt else ok(v), s))
    return res


def tail_of(t, acc):
    """what text t adds to acc"""
    if t is acc: return mk("str", "")
    if t.k != "txt" or t.a[0][0] is not acc or any(contains(y, acc) for y in t.a[0][1:]): return None
    return text(t.a[0][1:])


@model("List::fold", "Iterator::fold", "List::fold_with_idx")
def m_fold(e, st, a, c):
    src = L(e, st, a[0])
    idx = c["tname"].endswith("idx")
    if idx: src = mk("enum", src)
    parts = list(a[1].a[0]) if a[1].k == "tuple" and a[1].a[0] else None
    accs = [mk("acc", src, "#%d" % i) for i in range(len(parts or [1]))]
    acc = tup(*accs) if parts else accs[0]
    el, outs, n0, e0, base = quant(e, st, src, a[2], c, (lambda el: [acc] + list(el.a[0])) if idx else (lambda el: [acc, el]))
    rets = [o for o in outs if o.kind == "ret"]
    s = base.copy()
    e.add_forall(s, src, el, alts(rets, n0, e0))
    conds = [[(x if v else neg(x)) for x, v in o.st.order[n0:]] for o in rets]
    cells = {x: (parts[i] if parts else a[1], [proj(o.val, ("f", str(i))) if parts else o.val for o in rets]) for i, x in enumerate(accs)}
    tails = [tail_of(o.val, accs[0]) for o in rets] if not parts else [None]
    if None not in tails:       # text that only grows
        body = tails[0] if len(set(tails)) == 1 else mk("choice", tuple((tuple(cs), x) for cs, x in zip(conds, tails)))
        return [o for o in outs if o.kind != "ret"] + [Out("ret", text((a[1], joined(numbered(src, el, body), mk("str", "")))), s)]
    v = [fold_of(x, cells, src, el, conds) for x in accs]
    v = tup(*v) if parts else v[0]
    return [o for o in outs if o.kind != "ret"] + [Out("ret", v, s)]


# ---- nondeterminism
@model("pick", "predict")
def m_pick(e, st, a, c):
    """the chosen value satisfies the closure"""
    n = st.cnt.get(c["tname"], 0); st.cnt[c["tname"]] = n + 1
    x = mk("eff", c["tname"], (), n)
    clo = a[-1]
    s0 = st.copy()
    n0, e0 = len(s0.order), len(s0.events)
    outs = e.apply(s0, clo, [x], c["sp"], c["depth"])
    t, f, other = boolsplit(e, outs)
    good = tuple(tuple((g if v else neg(g)) for g, v in o.st.order[n0:]) for o in t)
    bad = tuple(tuple((g if v else neg(g)) for g, v in o.st.order[n0:]) for o in f)
    res = list(other)
    for o in t:
        o.st.events.append(("nondet", c["tname"], x, good, tuple(a), c["sp"], bad))
        o.st.cnt = dict(o.st.cnt)
        res.append(Out("ret", x, o.st))
    return res


@model("mem::take", "mem::replace", "take", "replace", "Option::take", "Option::replace")
def m_take(e, st, a, c):
    x = a[0]; old = val(st, e, x)
    n = c["tname"].split("::")[-1]
    if c["tname"].startswith("Option"): new = NONE if n == "take" else some(a[1])
    else: new = a[1] if n == "replace" else mk("const", "default")
    if x.k == "mref": e.storeto(st, x.a[0], x.a[1], new, c["sp"])
    return old


@model("mem::swap", "swap")
def m_swap(e, st, a, c):
    x, y = a
    vx, vy = val(st, e, x), val(st, e, y)
    e.storeto(st, x.a[0], x.a[1], vy, c["sp"]); e.storeto(st, y.a[0], y.a[1], vx, c["sp"])
    return UNIT


@model("[T]::contains")
def m_slcontains(e, st, a, c):
    xs, y = L(e, st, a[0]), L(e, st, a[1])
    if xs.k == "array":
        r = FALSE
        for x in xs.a[0]: r = disj(r, eq(x, y))
        return r
    return mk("call", "[T]::contains", (xs, y))


def _strict(op):
    def f(e, st, a, c): return op(L(e, st, a[0]), L(e, st, a[1]))
    return f


for _t in ("u8", "u16", "u32", "u64", "usize", "i32", "i64"):
    MODELS[_t + "::strict_add"] = _strict(add); MODELS[_t + "::strict_sub"] = _strict(sub)


# `vec![..]`: an uninitialised box is written through a raw pointer and then turned into a vector
@model("Box::new_uninit")
def m_newuninit(e, st, a, c):
    key = ("heap", len(st.store), c["sp"])
    st.store[key] = adt("MaybeUninit", "MaybeUninit", (("value", adt("ManuallyDrop", "ManuallyDrop", (("value", adt("MaybeDangling", "MaybeDangling", (("0", mk("undef", "uninit")),))),))),))
    return adt("RawBox", "RawBox", (("0", adt("Unique", "Unique", (("pointer", mk("mref", key, ())),))),))


@model("boxed::box_assume_init_into_vec_unsafe", "box_assume_init_into_vec_unsafe")
def m_intovec(e, st, a, c):
    b = a[0]
    if b.k == "adt" and b.a[0] == "RawBox":
        p = adtf(adtf(b, "0"), "pointer")
        v = e.load(st, p.a[0], p.a[1])
        return adtf(adtf(adtf(v, "value"), "value"), "0")
    return mk("call", "into_vec", (b,))


@model("HashMap::insert", "BTreeMap::insert")
def m_hminsert(e, st, a, c):
    x = a[0]; old = val(st, e, x); k, v = L(e, st, a[1]), L(e, st, a[2])
    g = optget(old, k)
    if x.k == "mref": e.storeto(st, x.a[0], x.a[1], mk("minsert", old, k, v), c["sp"])
    return g


# what kind of type an AdtDef is: exactly one of these (a Box and an UnsafeCell are structs, told apart by their lang item)
def adtkind(e, st, a):
    t = mk("call", "adtkind", (L(e, st, a[0]),))
    terms.ENUMS.setdefault("sa::AdtKind", ["Struct", "Union", "Enum", "Box", "UnsafeCell"])
    TERM_ENUM[t] = "sa::AdtKind"
    return t


@model("r::AdtDef::is_struct")
def m_adt_struct(e, st, a, c):
    t = adtkind(e, st, a)
    return conj(neg(isv(t, "Union")), neg(isv(t, "Enum")))


@model("r::AdtDef::is_union", "r::AdtDef::is_enum", "r::AdtDef::is_box", "r::AdtDef::is_unsafe_cell")
def m_adt_kind(e, st, a, c):
    return isv(adtkind(e, st, a), {"is_union": "Union", "is_enum": "Enum", "is_box": "Box", "is_unsafe_cell": "UnsafeCell"}[c["tname"].split("::")[-1]])


@model("r::AdtDef::adt_kind")
def m_adtkind(e, st, a, c):
    t = adtkind(e, st, a)
    res = []
    for v, cs in (("Union", [isv(t, "Union")]), ("Enum", [isv(t, "Enum")]), ("Struct", [neg(isv(t, "Union")), neg(isv(t, "Enum"))])):
        ss = [st.copy()]
        for x in cs: ss = [s2 for s in ss for s2 in e.assume(s, x)]
        for s in ss: res.append(Out("ret", adt("AdtKind", v), s))
    return res


@model("HashMap::entry")
def m_entry(e, st, a, c): return adt("MapEntry", "MapEntry", (("map", a[0]), ("key", L(e, st, a[1]))))


@model("Entry::or_insert_with", "Entry::or_insert", "Entry::or_default")
def m_orinsert(e, st, a, c):
    en = a[0]
    if not is_adt(en, "MapEntry"): return mk("call", c["tname"], tuple(a))
    x, k = adtf(en, "map"), adtf(en, "key")
    g = optget(val(st, e, x), k)
    if g.k == "call" and g.a[0] == "Map::get": g = mk("call", "HashMap::get", g.a[1])
    res = []
    for s in e.assume(st.copy(), isv(g, "Some")): res.append(Out("ret", vfield(g, "Some", "0"), s))
    for s in e.assume(st.copy(), neg(isv(g, "Some"))):
        if c["tname"].endswith("_with"): outs = e.apply(s, a[1], [], c["sp"], c["depth"], "?")
        else: outs = [Out("ret", a[1] if len(a) > 1 else mk("call", "default", ()), s)]
        for o in outs:
            if o.kind == "ret":
                if x.k == "mref": e.storeto(o.st, x.a[0], x.a[1], mk("minsert", val(o.st, e, x), k, o.val), c["sp"])
            res.append(o)
    return res


# ---- driver plumbing: vectors edited in place, callbacks handed to the compiler
def place_vec(e, st, x, c):
    return x.k == "mref" and str(c["argty"][0]).lstrip("&").replace("mut ", "").startswith(("std::vec::Vec", "alloc::vec::Vec", "Vec"))


@model("Vec::insert")
def m_vec_insert(e, st, a, c):
    x, i, v = a
    if x.k != "mref": return None
    old = val(st, e, x)
    if old.k == "array" and i.k == "int" and i.a[0] <= len(old.a[0]): new = mk("array", old.a[0][:i.a[0]] + (v,) + old.a[0][i.a[0]:])
    else: new = mk("call", "insert_all", (old, i, mk("array", (v,))))
    e.storeto(st, x.a[0], x.a[1], new, c["sp"])
    return UNIT


@model("Vec::splice")
def m_splice(e, st, a, c):
    x, r, src = a
    if x.k != "mref": return None
    old = val(st, e, x)
    if r.k == "adt" and r.a[1] == "Range" and adtf(r, "start") is adtf(r, "end"): new = mk("call", "insert_all", (old, adtf(r, "start"), L(e, st, src)))
    else: new = mk("call", "splice", (old, r, L(e, st, src)))
    e.storeto(st, x.a[0], x.a[1], new, c["sp"])
    return mk("call", "spliced_out", (old, r))


def sift(e, st, x, pred, c, keep):
    """keep the elements for which pred is `keep`; -> (kept, removed) as filter_maps over the old contents"""
    src = val(st, e, x)
    el, outs, n0, e0, base = quant(e, st, src, pred, c)
    t, f, other = boolsplit(e, outs)
    if not keep: t, f = f, t
    cond = lambda o: tuple((y if v else neg(y)) for y, v in o.st.order[n0:])
    pick = lambda yes, no: mk("call", "Iterator::filter_map", (src, mk("choice", tuple((cond(o), some(el)) for o in yes) + tuple((cond(o), NONE) for o in no))))
    s = base.copy()
    e.add_forall(s, src, el, alts(t + f, n0, e0))
    e.storeto(s, x.a[0], x.a[1], pick(t, f), c["sp"])
    return s, pick(f, t), [o for o in other]


@model("Vec::retain")
def m_retain(e, st, a, c):
    if a[0].k != "mref": return None
    s, _, res = sift(e, st, a[0], a[1], c, True)
    return res + [Out("ret", UNIT, s)]


@model("Vec::extract_if")
def m_extract_if(e, st, a, c):
    if a[0].k != "mref" or not (a[1].k == "adt" and a[1].a[1] == "RangeFull" or a[1].k in ("const", "fn") and "RangeFull" in str(a[1].a[0])): return None
    s, out, res = sift(e, st, a[0], a[2], c, False)
    return res + [Out("ret", out, s)]


@model("Iterator::for_each")
def m_for_each(e, st, a, c):
    if a[1].k == "fn" and a[1].a[0].rsplit("::", 1)[-1] == "drop": return UNIT
    src = L(e, st, a[0])
    if src.k == "array" and len(src.a[0]) <= 1:
        live, done = [st], []
        for x in src.a[0]:
            outs = [o for s in live for o in e.apply(s, a[1], [x], c["sp"], c["depth"])]
            done += [o for o in outs if o.kind != "ret"]; live = [o.st for o in outs if o.kind == "ret"]
        return done + [Out("ret", UNIT, s) for s in live]
    el, outs, n0, e0, base = quant(e, st, src, a[1], c)
    s = base.copy()
    e.add_forall(s, src, el, alts([o for o in outs if o.kind == "ret"], n0, e0))
    return [o for o in outs if o.kind != "ret"] + [Out("ret", UNIT, s)]


@model("r::catch_with_exit_code")
def m_exit_code(e, st, a, c):
    def done(o):
        """of what gives no value: what it did last"""
        evs = [x for x in o.st.events[n:] if x[0] == "call"]
        return evs[-1][3] if o.val is UNIT and evs else o.val
    n = len(st.events)
    return [Out("ret", mk("call", "catch_with_exit_code", (done(o),)), o.st) if o.kind == "ret" else o for o in e.apply(st, a[0], [], c["sp"], c["depth"])]


@model("r::run_compiler")
def m_run_compiler(e, st, a, c):
    """the compiler is run with these arguments; it calls back after the analysis"""
    res = e.opaque_call(st, c["tname"], [L(e, st, a[0])], c["sp"], c["dty"])
    cb = val(st, e, a[1])
    if cb.k != "adt": return None
    for b in e.p.fns():
        if b.name.startswith("<%s as " % cb.a[0]) and b.name.endswith("Callbacks>::after_analysis"):
            outs = e.run(b, [a[1], sym("compiler"), sym("tcx")], res[0].st, c["depth"] + 1)
            for o in outs:
                if o.kind == "ret": o.st.events.append(("call", "r::compilation", (o.val,), UNIT, c["sp"], (o.val,)))
            return [Out("ret", UNIT, o.st) if o.kind == "ret" else o for o in outs]
    return res


@model("rp::run")
def m_smir_run(e, st, a, c):
    """run the closure inside rustc_public's context"""
    f = a[-1]
    return [Out("ret", ok(o.val), o.st) if o.kind == "ret" else o for o in e.apply(st, f, [], c["sp"], c["depth"])]


@model("[T]::array_windows")
def m_array_windows(e, st, a, c):
    n = [x for x in c["ga"] if x.startswith("#")]
    return mk("call", "[T]::windows", (L(e, st, a[0]), intt(int(n[0][1:])))) if n and n[0][1:].isdigit() else None


@model("[T; N]::map")
def m_array_map(e, st, a, c):
    """one element after the other"""
    x = L(e, st, a[0])
    if x.k != "array" or len(x.a[0]) > 8: return None
    done, res = [(st, ())], []
    for el in x.a[0]:
        nxt = []
        for s, vs in done:
            for o in e.apply(s, a[1], [el], c["sp"], c["depth"]):
                if o.kind == "ret": nxt.append((o.st, vs + (o.val,)))
                else: res.append(o)
        done = nxt
    return res + [Out("ret", mk("array", vs), s) for s, vs in done]


@model("[T]::split_last", "[T]::split_first")
def m_split_slice(e, st, a, c):
    """there is one exactly if there are any"""
    x = L(e, st, a[0]); n = eq(length(x), intt(0))
    r = some(vfield(mk("call", c["tname"], (x,)), "Some", "0"))
    return [Out("ret", v, s) for f, v in ((neg(n), r), (n, NONE)) for s in e.assume(st.copy(), f)]


@model("[T]::split_at_mut", "[T]::split_at")
def m_split_at(e, st, a, c):
    """the parts before and after a position"""
    n = "IndexMut<I>>::index_mut" if c["tname"].endswith("mut") else "Index<I>>::index"
    x = val(st, e, a[0])
    cut = lambda r: mk("eff", "<[T] as std::ops::" + n, (x, r), 0) if c["tname"].endswith("mut") else mk("call", "<[T] as std::ops::" + n, (x, r))
    return tup(cut(adt("RangeTo", "RangeTo", (("end", a[1]),))), cut(adt("RangeFrom", "RangeFrom", (("start", a[1]),))))


KINDS = {"is_bool": "Bool", "is_char": "Char", "is_never": "Never", "is_str": "Str", "is_slice": "Slice", "is_array": "Array", "is_adt": "Adt", "is_ref": "Ref", "is_raw_ptr": "RawPtr",
         "is_fn_ptr": "FnPtr", "is_fn_def": "FnDef", "is_closure": "Closure", "is_dyn": "Dynamic", "is_trait": "Dynamic", "is_any_ptr": "Ref RawPtr FnPtr", "is_fn": "FnDef FnPtr"}


@model(*("r::Ty::" + n for n in KINDS))
def m_ty_is(e, st, a, c):
    """questions about the kind of a type"""
    k, r = mk("call", "r::Ty::kind", (val(st, e, a[0]),)), FALSE
    for v in KINDS[c["tname"].rsplit("::", 1)[-1]].split(): r = disj(r, isv(k, v))
    return r


@model("r::Mutability::is_mut", "r::Mutability::is_not")
def m_is_mut(e, st, a, c): return isv(val(st, e, a[0]), "Mut" if c["tname"].endswith("is_mut") else "Not")


@model("*mut T::cast", "*const T::cast")
def m_ptr_cast(e, st, a, c): return a[0]        # as the `as` between pointers: the same address


@model("r::SysrootBuilder::build_mode", "r::SysrootBuilder::sysroot_config", "r::SysrootBuilder::cargo")
def m_builder_setter(e, st, a, c):
    """the setters of the builder write different fields: their order does not matter, and of two of the same the last counts"""
    x, chain = val(st, e, a[0]), {c["tname"]: val(st, e, a[1])}
    while x.k == "call" and x.a[0] in BUILDER_ORDER:
        chain.setdefault(x.a[0], x.a[1][1]); x = x.a[1][0]
    for n in BUILDER_ORDER:
        if n in chain: x = mk("call", n, (x, chain[n]))
    return x


BUILDER_ORDER = ["r::SysrootBuilder::build_mode", "r::SysrootBuilder::sysroot_config", "r::SysrootBuilder::cargo"]


@model("r::Place::ty_from")
def m_place_ty_from(e, st, a, c):
    """the type of a place, taken apart"""
    l, p = val(st, e, a[0]), val(st, e, a[1])
    if l.k == "f" and p.k == "f" and l.a[1] == "local" and p.a[1] == "projection" and l.a[0] is p.a[0]:
        return e.opaque_call(st, "r::Place::ty", [l.a[0]] + [val(st, e, x) for x in a[2:]], c["sp"], c["dty"])
