"""A small expression language (Python syntax) in which the rules state guards, results and final states.

  x.f              field            x._0           tuple field         x.Some._0       variant field
  x[i]             list element     x is Some      variant test        x is not Some
  len(x)           list length      Some(e) / None / Enum.Variant(e) / Struct(f=e)
  a < b, a == b, and/or/not, + - *  call("Name", e...)  upd(x, "f", e)  upd_at(l, i, e)
Names: parameters of the analysed function, or entries of the rule's environment (terms or strings, expanded lazily).
"""
import ast
from terms import *
import terms
import models


class Env(dict):
    pass


def E(s, env=None):
    if isinstance(s, T): return s
    env = env or {}
    return ev(ast.parse(s.strip().replace("\n", " "), mode="eval").body, env)


def ev(n, env):
    if isinstance(n, ast.Name):
        if n.id in env:
            v = env[n.id]
            return E(v, env) if isinstance(v, str) else v
        if n.id == "true": return TRUE
        if n.id == "false": return FALSE
        if n.id == "unit": return UNIT
        if n.id == "empty_list": return mk("array", ())
        return sym(n.id)
    if isinstance(n, ast.Constant):
        if n.value is None: return NONE
        if n.value is True: return TRUE
        if n.value is False: return FALSE
        if isinstance(n.value, int): return intt(n.value)
        if isinstance(n.value, str): return mk("str", n.value)
    if isinstance(n, ast.Attribute):
        name = n.attr
        if name.startswith("_") and name[1:].isdigit(): name = name[1:]
        if isinstance(n.value, ast.Attribute) and n.value.attr[:1].isupper():
            return vfield(ev(n.value.value, env), n.value.attr, name)
        if isinstance(n.value, ast.Name) and n.value.id not in env and n.value.id in terms.ENUMS:
            return adt(n.value.id, name)
        if name[:1].isupper(): raise SyntaxError("variant without field: " + name)
        return field(ev(n.value, env), name)
    if isinstance(n, ast.Subscript): return index(ev(n.value, env), ev(n.slice, env))
    if isinstance(n, ast.Tuple): return tup(*[ev(x, env) for x in n.elts])
    if isinstance(n, ast.List): return mk("array", tuple(ev(x, env) for x in n.elts))
    if isinstance(n, ast.BoolOp):
        r = None
        for x in n.values:
            v = ev(x, env)
            r = v if r is None else conj(r, v) if isinstance(n.op, ast.And) else disj(r, v)
        return r
    if isinstance(n, ast.UnaryOp):
        v = ev(n.operand, env)
        return neg(v) if isinstance(n.op, ast.Not) else scale(v, -1)
    if isinstance(n, ast.BinOp):
        a, b = ev(n.left, env), ev(n.right, env)
        if isinstance(n.op, ast.Add): return add(a, b)
        if isinstance(n.op, ast.Sub): return sub(a, b)
        if isinstance(n.op, ast.Mult): return mul(a, b)
        if isinstance(n.op, ast.Mod): return mk("call", "Int::rem", (a, b))
        if isinstance(n.op, ast.FloorDiv): return mk("call", "Int::div", (a, b))
        if isinstance(n.op, ast.LShift): return mk("call", "Int::shl", (a, b))
    if isinstance(n, ast.Compare):
        r = TRUE
        left = n.left
        for op, c in zip(n.ops, n.comparators):
            if isinstance(op, (ast.Is, ast.IsNot)):
                a = ev(left, env)
                name = "None" if isinstance(c, ast.Constant) else c.id
                f = isv(a, name)
                if name == "None": f = neg(isv(a, "Some")) if not is_adt(a) else f
                if isinstance(op, ast.IsNot): f = neg(f)
            else:
                a, b = ev(left, env), ev(c, env)
                f = {ast.Lt: lt, ast.LtE: le, ast.Gt: gt, ast.GtE: ge, ast.Eq: eq, ast.NotEq: lambda x, y: neg(eq(x, y))}[type(op)](a, b)
            r = conj(r, f)
            left = c
        return r
    if isinstance(n, ast.Call):
        f = n.func
        if isinstance(f, ast.Name):
            args = [ev(x, env) for x in n.args]
            if f.id == "len": return models.length(args[0])
            if f.id == "call": return mk("call", args[0].a[0], tuple(args[1:]))
            if f.id == "const": return mk("const", args[0].a[0])
            if f.id == "upd": return update(args[0], ("f", args[1].a[0]), args[2])
            if f.id == "upd_at": return update(args[0], ("idx", args[1]), args[2])
            if f.id == "push":
                return mk("array", args[0].a[0] + (args[1],)) if args[0].k == "array" else mk("push", args[0], args[1])
            if f.id == "get": return models.optget(args[0], args[1])
            if f.id == "contains": return models.scontains(args[0], args[1])
            if f.id in ("max", "min"):
                a, b = args
                if b.id < a.id: a, b = b, a
                return mk("call", f.id, (a, b))
            if f.id == "minsert": return mk("minsert", *args)
            if f.id == "sinsert": return mk("sinsert", *args)
            if f.id == "mremove": return mk("mremove", *args)
            if f.id == "term": return mk(args[0].a[0], *args[1:])
            if f.id == "in_bounds": return mk("call", "Int::in_bounds", tuple(args))
            if f.id == "aligned": return eq(mk("call", "Int::rem", (args[1], args[0])), intt(0))
            if f.id == "Some": return some(args[0])
            if f.id == "Ok": return ok(args[0])
            if f.id == "Err": return err(args[0])
            if f.id == "implies": return disj(neg(args[0]), args[1])
            if f.id[:1].isupper():
                if n.keywords: return adt(f.id, f.id, tuple((k.arg, ev(k.value, env)) for k in n.keywords))
                return adt(f.id, f.id, tuple((str(i), a) for i, a in enumerate(args)))
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            args = [ev(x, env) for x in n.args]
            if n.keywords: return adt(f.value.id, f.attr, tuple((k.arg, ev(k.value, env)) for k in n.keywords))
            return adt(f.value.id, f.attr, tuple((str(i), a) for i, a in enumerate(args)))
    raise SyntaxError("cannot read " + ast.dump(n))
