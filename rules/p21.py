"""P21: every name a well-formed program uses is declared: block, local, function, global, vtable, trait and trait method names, found from the types of
the program's own data structures."""
import re
import sp, tool
from rule import BIG

META = dict(rule="For every field of the program's syntax types that holds a name (found from the type definitions, through options, lists and maps), every accepted path of the "
            "well-formedness check of the type that has the field establishes that the name is declared: by a successful lookup in the table of such names, or by a check that does.")
# where names of each kind are declared
HOME = {"BbName": "blocks", "LocalName": "locals", "FnName": "functions", "GlobalName": "globals", "VTableName": "vtables", "TraitName": "traits", "TraitMethodName": "traits"}
# types that are not part of a program (or whose names declare rather than use), and where the names of the others are checked: (function, the value)
OUTSIDE = {"Machine", "StackFrame", "StackPopAction",      # run-time state
           "PointerMetaKind"}                             # of a raw pointer: says what kind of metadata it carries, and is looked up nowhere
DECLARES = {("Function", "locals"), ("Function", "blocks"), ("Program", "functions"), ("Program", "globals"), ("Program", "traits"), ("Program", "vtables")}
AT = {"VTable": ("Program::check_wf", "each(self.vtables).1"), "UnOp": ("ValueExpr::check_wf", "self.UnOp.operator"), "Type": None}
CHECKS = ("check_next_block", "check_unwind_block")


def uses(P):
    """(type, variant or None, field, kind of name, suffix of the text of a use)"""
    for t, a in sorted(P.adts.items()):
        if "<" in t or t in OUTSIDE or "Visitor" in t: continue
        for v in a["v"]:
            for f, ty in v["f"]:
                if (t, f) in DECLARES: continue
                for k in HOME:
                    if re.search(r"\b%s\b" % k, ty) and "PhantomData" not in ty:
                        if re.search(r"Map<.*%s, " % k, ty): yield t, v["n"] if a["enum"] else None, f, k, "key"
                        else: yield t, v["n"] if a["enum"] else None, f, k, "value" if "Map<" in ty else "element" if "List<" in ty or "Set<" in ty else "option" if "Option<" in ty else ""


def established(o):
    """the literals a path establishes, those about every element of a collection included"""
    out = set()

    def elems(k):
        alts = [set() for _ in tool.ELEMS[k]]
        for alt, s in zip(tool.ELEMS[k], alts):
            for x, w in alt:
                if x.startswith("forall "): s |= elems(x)
                elif w: s.add(x)
        return set.intersection(*alts) if alts else set()
    for l, v in tool.literals(o).items():
        if v: out |= elems(l) if l.startswith("forall ") else {l}
    return out


def wellformed(c, P):
    """the accepted paths of a check: (path, its literals, those it establishes)"""
    memo = {}

    def accepted(fn):
        if fn not in memo:
            memo[fn] = []
            for o in c.paths(fn, opaque=[x for x in sp.STEPS if x != fn], prog=P):
                if o.tag == "panic": continue
                for v in tool.split(o):
                    if not tool.cshow(v.val).startswith("Err("): memo[fn].append((v, tool.literals(v), established(v)))
        return memo[fn]
    return accepted


def check(c):
    sp.setup()
    P = c.prog("minirust-rs")
    accepted, n = wellformed(c, P), 0

    def declared(est, text, home):
        for l in est:
            if l.endswith(" is Some") and l.startswith("get(") and l[4:-len(" is Some") - 1].endswith(", " + text):
                tab = l[4:-len(" is Some") - 1][:-len(text) - 2]
                if tab == home or tab.endswith("." + home): return True
            if home == "blocks" and l.endswith(" is Ok") and l.startswith(CHECKS) and l[:-len(" is Ok") - 1].endswith(", " + text): return True
            m = re.fullmatch(r"each\((.*)\)\.0", text)
            if m and "get(self.%s, " % home in l and re.search(r"(== mapproj\(%s, 0\)$)|(^mapproj\(%s, 0\) ==)" % (re.escape(m.group(1)), re.escape(m.group(1))), l): return True     # the very set of declared names
            if home == "traits" and l.startswith("contains(get(") and "traits, " in l and l.endswith(", %s)" % text): return True
        return False
    for fn in CHECKS:
        fn = "Function::" + fn
        names = P.fn(fn).names
        arg = names[3].replace("mut ", "")
        outs = accepted(fn)
        c.must(bool(outs), fn + "/accepts", fn, "nothing is ever accepted")
        for o, lits, est in outs: c.must(declared(est, arg, "blocks"), "%s/exists" % fn.rsplit("::", 1)[-1], fn, "a block is accepted that may not exist", o)
    for t, V, f, kind, shape in uses(P):
        fn, val = AT.get(t) or (t + "::check_wf", "self")
        if P.fn(fn) is None:
            c.must(False, "%s/checked" % t, fn, "the names of type %s are not checked anywhere known" % t)
            continue
        text = "%s.%s.%s" % (val, V, f) if V else "%s.%s" % (val, f)
        use = {"key": "each(%s).0", "value": "each(%s).1", "element": "each(%s)", "option": "%s.Some.0", "": "%s"}[shape] % text
        key = "%s/%s" % ("%s::%s" % (t, V) if V else t, f + ("/key" if shape == "key" else ""))
        n += 1
        k = 0
        for o, lits, est in accepted(fn):
            if V and any(v and l.startswith(val + " is ") and l != "%s is %s" % (val, V) for l, v in lits.items()): continue
            if V and not lits.get("%s is %s" % (val, V)): continue
            if shape == "option" and lits.get(text + " is None"): continue
            k += 1
            c.must(declared(est, use, HOME[kind]), key, fn, "%s: a %s is accepted that may not be declared: nothing looks up %s among the %s" % (key, kind, use, HOME[kind]), o)
        c.must(k > 0, key + "/covered", fn, "%s: no accepted path of %s speaks about it" % (key, fn))
    c.floor("name uses", n, 20)
