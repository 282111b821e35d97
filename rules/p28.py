"""P28: well-formedness is hereditary: every part (type, expression, statement, ...) of an accepted part of a program is itself accepted."""
import re
import sp, tool
from terms import subterms
from p21 import established, wellformed

META = dict(rule="For every field of the program's syntax types that contains something with a well-formedness check of its own (found from the type definitions, through options, lists and "
            "maps), every accepted path of the check of the type that has the field has passed that part, or every one of those parts, to its own check, and that check succeeded.")
OUTSIDE = {"Machine", "StackFrame", "StackPopAction", "Thread", "Place", "Value", "ReborrowSettings"}      # run-time state
AT = {"BasicBlock": ("Function", "each(self.blocks).1", None), "BinOp": ("ValueExpr", "self.BinOp.operator", None), "UnOp": ("ValueExpr", "self.UnOp.operator", None),
      "CastOp": ("ValueExpr", "self.UnOp.operator.Cast.0", None), "Variant": ("Type", "each(self.Enum.variants).1", "self is Enum")}


def check(c):
    sp.setup()
    P = c.prog("minirust-rs")
    accepted = wellformed(c, P)
    parts = {t for t in P.adts if P.fn(t + "::check_wf")}
    c.floor("kinds of parts", len(parts), 14)
    n = 0
    for t, a in sorted(P.adts.items()):
        if "<" in t or t in OUTSIDE or "Visitor" in t: continue
        for v in a["v"]:
            for f, ty in v["f"]:
                held = [k for k in sorted(parts) if re.search(r"\b%s\b" % k, ty) and "PhantomData" not in ty]
                for owner, val, when in [AT.get(t, (t, "self", None))] if held else ():
                    fn = owner + "::check_wf"
                    key = "%s/%s" % ("%s::%s" % (t, v["n"]) if a["enum"] else t, f)
                    if P.fn(fn) is None:
                        c.must(False, key, fn, "%s: a %s is part of a program, but nothing known checks it" % (key, held))
                        continue
                    text = "%s.%s.%s" % (val, v["n"], f) if a["enum"] else "%s.%s" % (val, f)
                    n += 1
                    k = 0
                    for o, lits, est in accepted(fn):
                        if not lits.get("%s is %s" % (val, v["n"]) if a["enum"] else when, not a["enum"] and when is None): continue
                        if lits.get(text + " is None"): continue
                        k += 1
                        c.must(any(l.startswith("check_wf(") and l.endswith(" is Ok") and text in part(l) for l in est), key, fn, "%s: accepted without being checked itself" % key, o)
                    c.must(k > 0, key + "/covered", fn, "%s: no accepted path of %s has one" % (key, fn))
    c.floor("parts", n, 40)
    # the layout of a type means something only once the type is known to be well-formed
    k = 0
    for t in sorted(parts):
        fn = t + "::check_wf"
        for o, lits, est in accepted(fn):
            for before, T in early(list(o.facts)):
                k += 1
                c.must(not before, "%s/layout-of-unchecked/%s" % (t, T.replace(" ", "")), fn, "%s: the layout of %s is computed before it is checked to be well-formed" % (t, T), o)
    c.floor("layouts", k, 5)


def early(facts):
    """for every type that a path both lays out and checks: is it laid out first"""
    seen, out = {}, []
    for f, v in facts:
        if f.k == "forall":
            for alt in f.a[2]: out += early([(x, True) for x in alt])
            continue
        for x in subterms(f):
            if x.k != "call" or not x.a[1]: continue
            if x.a[0] == "Type::layout": seen.setdefault(x.a[1][0], True)
            if x.a[0] == "Type::check_wf" and f.k == "is" and f.a[0] is x and x.a[1][0] not in out:
                out.append((seen.get(x.a[1][0], False), tool.cshow(x.a[1][0])))
                seen[x.a[1][0]] = False
    return out


def part(l):
    """what a check was asked about: its first argument"""
    d, i = 0, len("check_wf(")
    for j in range(i, len(l)):
        d += (l[j] in "([{") - (l[j] in ")]}")
        if d < 0 or d == 0 and l.startswith(", ", j): return l[i:j]
    return l
