"""Rule framework: obligations over the path summaries of engine.py, their evidence and their reports."""
import os, re, json, time, glob, sys
from terms import *
import terms
from engine import Engine, Program, AnalysisError, decide, Out, canon
import engine, front
from expr import E
import models

VERIF = front.VERIF
KNOWN = os.path.join(VERIF, "known-findings.txt")


def strip_src(src, el):
    """see through reordering/decorating adapters: -> (underlying source, its element, extra facts)"""
    extra = []
    while True:
        if src.k in ("rev", "sorted"): src = src.a[0]
        elif src.k == "enum" and el.k == "tuple": src, el = src.a[0], el.a[0][1]
        elif src.k == "filter":
            extra += list(src.a[2]); src = src.a[0]
        else: return src, el, extra


def fdict(lits):
    d = {}
    for f in lits:
        if f.k == "not": d[f.a[0]] = False
        else: d[f] = True
    return d


def each(src, formula, env=None):
    """formula term: every element `el` of the list/set/map `src` satisfies `formula`"""
    env = dict(env or {})
    src = E(src, env)
    ph = mk("placeholder", src)
    env["el"] = ph
    return mk("FA", src, ph, E(formula, env))


def some_el(src, formula, env=None):
    """formula term: some element `el` of src satisfies formula"""
    return neg(each(src, neg(E(formula, {**(env or {}), "el": mk("placeholder", E(src, env or {}))})), env))


def holds(facts, f):
    """decide() extended with quantified formulas"""
    if f.k == "FA":
        src, ph, body = f.a
        for g, v in facts.items():
            if not v or g.k != "forall": continue
            s0, el0, alts = g.a
            s, el, extra = strip_src(s0, el0)
            if s.k == "adt" and s.a[0] == "Range" and adtf(s, "start") is intt(0) and adtf(s, "end") is models.length(src):
                s, el = src, index(src, el)
            if s is not src: continue
            want = subst(body, {ph: el})
            good = True
            for al in list(alts) + [(neg(c),) for c in extra]:
                d = dict(facts); d.update(fdict(expand(al)))
                if holds(d, want) is not True: good = False; break
            if good: return True
        # a witness element refuting it
        seen = set()
        for g in list(facts):
            for t in subterms(g):
                if t.k in ("elem", "idx") and t not in seen:
                    seen.add(t)
                    if t.a[0] is src or (t.k == "elem" and strip_src(t.a[0], t)[0] is src):
                        if holds(facts, subst(body, {ph: t})) is False: return False
        return None
    if f.k == "not":
        r = holds(facts, f.a[0])
        return None if r is None else not r
    if f.k == "and":
        a, b = holds(facts, f.a[0]), holds(facts, f.a[1])
        if a is False or b is False: return False
        if a and b: return True
        return decide(facts, f)
    if f.k == "or":
        a, b = holds(facts, f.a[0]), holds(facts, f.a[1])
        if a or b: return True
        if a is False and b is False: return False
        # case split on the first disjunct
        for x, y in (f.a, f.a[::-1]):
            d = dict(facts); d.update(fdict(expand([neg(x)])))
            if holds(d, y) is True: return True
        return decide(facts, f)
    r = decide(facts, f)
    if r is None:
        # rewrite by the equalities known on this path
        g = under(facts, f)
        if g is not f: r = decide(facts, g)
    return r


def under(facts, f):
    m = {}
    for g, v in facts.items():
        if v and g.k == "eq0":
            c, d = to_lin(g.a[0])
            if len(d) == 1:
                (t, k), = d.items()
                if k in (1, -1): m[t] = intt(-c * k)
    if not m: return f
    return subst(f, m)


def expand(lits):
    out = []
    for l in lits:
        if l.k == "and": out += expand(l.a)
        elif l.k == "not" and l.a[0].k == "or": out += expand([neg(l.a[0].a[0]), neg(l.a[0].a[1])])
        else: out.append(l)
    return out


# Functions with a contract of their own: a rule sees them as one step unless it asks to look inside.  Everything else that is
# called - small accessors, and any helper a future change may introduce - is looked into.
BIG = set("""
Machine::eval_terminator Machine::eval_statement Machine::eval_value Machine::eval_place Machine::eval_argument Machine::eval_constant
Machine::eval_intrinsic Machine::eval_un_op Machine::eval_bin_op Machine::eval_int_un_op Machine::eval_int_bin_op Machine::eval_cast_op
Machine::eval_rel_op Machine::compare_ptr Machine::eval_print Machine::eval_call Machine::eval_count_ones
Machine::check_ptr Machine::check_ptr_metadata Machine::check_value Machine::typed_store Machine::typed_load Machine::transmute
Machine::place_load Machine::place_store Machine::retag_val Machine::create_frame Machine::new_thread Machine::fn_from_ptr Machine::vtable_from_ptr
Machine::vtable_lookup Machine::compute_size Machine::compute_align Machine::prepare_for_inplace_passing Machine::terminate_active_thread
Machine::lock_create Machine::lock_acquire Machine::lock_release Machine::exit Machine::spawn Machine::join Machine::load_raw_data
Machine::ptr_offset_wrapping Machine::ptr_offset_inbounds Machine::step
Type::layout Type::encode Type::decode Type::check_wf Type::meta_kind encode_discriminant decode_discriminant encode_ptr decode_ptr check_abi_compatibility
ConcurrentMemory::allocate ConcurrentMemory::deallocate ConcurrentMemory::store ConcurrentMemory::load ConcurrentMemory::dereferenceable
ConcurrentMemory::signed_dereferenceable ConcurrentMemory::retag_ptr ConcurrentMemory::end_call ConcurrentMemory::leak_check
ConcurrentMemory::check_data_races ConcurrentMemory::reset_accesses ConcurrentMemory::deinit IntPtrCast::expose IntPtrCast::int2ptr
StackFrame::storage_live StackFrame::storage_dead
LayoutStrategy::compute_size_and_align LayoutStrategy::check_wf LayoutStrategy::check_aligned LayoutStrategy::meta_kind PointerMetaKind::encode_as_value PointerMetaKind::decode_value
PointerMetaKind::ty PtrType::meta_kind PtrType::safe_pointee PtrType::check_wf PtrType::as_wide_pair IntType::can_represent IntType::bring_in_bounds IntType::check_wf IntType::with_overflow
PointeeInfo::check_wf UnsafeCellStrategy::check_wf UnsafeCellStrategy::check_cells UnsafeCellStrategy::freeze_mask TupleHeadLayout::check_wf Discriminator::check_wf Constant::check_wf ValueExpr::check_wf PlaceExpr::check_wf
ArgumentExpr::check_wf Statement::check_wf Terminator::check_wf Function::check_wf Function::check_next_block Function::check_unwind_block
Relocation::check_wf Program::check_wf
""".split())


class Violation:
    def __init__(self, key, text): self.key = key; self.text = text


class Ctx:
    def __init__(self, pid, tier="quick"):
        self.pid = pid; self.tier = tier
        self.t0 = time.time()
        self.crates = list(front.CRATES)
        self.dumps = front.dump(self.crates)
        self._progs = {}
        self.viol = []; self.obl = []; self.done = 0; self.npaths = 0
        self.fnset = set(); self.inl = set(); self.notes = []
        self.gen = os.path.join(os.path.dirname(self.dumps["minirust-rs"]), "gen")

    # ---- programs
    def prog(self, *crates):
        crates = crates or ("minirust-rs",)
        if crates not in self._progs: self._progs[crates] = Program([self.dumps[c] for c in crates])
        return self._progs[crates]

    @property
    def P(self): return self.prog()

    def engine(self, opaque=(), prog=None, **kw): return Engine(prog or self.P, opaque, **kw)

    def paths(self, fn, opaque=None, prog=None, assume=(), args=None, env=None, inline=(), **kw):
        """path summaries of fn.  Default: functions of BIG (minus `inline`) are opaque; `opaque=[...]`: only those are."""
        if opaque is None: opaque = BIG - {fn} - set(inline)
        e = self.engine(opaque, prog, **kw)
        self.fnset.add(fn)
        try:
            outs = e.paths(fn, args=args, assume=[E(a, env) for a in assume])
        except AnalysisError as x:
            self.violate("%s:analysis" % fn, fn, "cannot analyse: %s" % x)
            return []
        self.inl |= e.inlined
        self.npaths += len(outs)
        return outs

    # ---- obligations
    def ob(self, label): self.obl.append(label)

    def where(self, fn):
        b = None
        for p in self._progs.values():
            b = b or p.fn(fn)
        return locate(fn, b)

    def violate(self, key, fn, text, out=None):
        lines = ["%s" % text, "  in: %s  (%s)" % (fn, self.where(fn))]
        if out is not None:
            lines.append("  path outcome: %s %s" % (out.tag, show(out.val) if isinstance(out.val, T) else out.val))
            if out.loc: lines.append("  at: generated %s" % (out.loc,))
            lines.append("  path condition:")
            for f, v in out.facts: lines.append("    " + ("" if v else "NOT ") + show(f))
        self.viol.append(Violation(key, "\n".join(lines)))

    def must(self, cond, key, fn, text, out=None):
        self.ob(key)
        if cond: self.done += 1
        else: self.violate(key, fn, text, out)
        return cond

    def floor(self, what, n, at_least, fn=""):
        self.must(n >= at_least, "floor:" + what, fn, "%s: found %d, confirmed by hand: %d" % (what, n, at_least))

    # ---- contracts
    def contract(self, name, fn, requires=(), ensures=(), opaque=None, inline=(), assume=(), env=None, ok=("Ok", "value"), bad=("Ub",),
                 post=None, panics="ignore", args=None, min_ok=1, min_bad=None, prog=None, other="forbid", errs=None, outs=None, unless=None):
        """Two-sided contract: every successful path establishes every requirement; every rejecting path refutes one.

        requires: [(label, formula)]; ensures: [(label, formula over result/post)] for successful paths;
        post: {argname: expr} the exact final value of a mutable argument on successful paths (frame included).
        """
        env = dict(env or {})
        if outs is None:
            outs = self.paths(fn, opaque, prog, assume, args, env, inline)
        nok = nbad = 0
        for o in outs:
            if unless is not None and unless(o): continue
            if o.tag in ok:
                nok += 1
                facts = o.st.facts
                for label, f in requires:
                    g = f if isinstance(f, T) else E(f, env)
                    r = holds(facts, g)
                    self.must(r is True, "%s/%s" % (name, label), fn,
                              "%s: a successful path does not establish `%s` (%s)" % (name, label, "it holds the opposite" if r is False else "never checked"), o)
                e2 = dict(env)
                v = o.val
                e2["result"] = adtf(v, "0") if is_adt(v, "Ok") else v
                for k, x in o.st.store.items():
                    if k[0] == "arg": e2["post_" + k[1]] = x
                for item in ensures:
                    label, f = item[0], item[1]
                    if len(item) > 2:
                        w = holds(facts, E(item[2], e2))
                        if w is False: continue
                    if callable(f): r = f(o, e2)
                    else: r = holds(facts, f if isinstance(f, T) else E(f, e2))
                    self.must(r is True, "%s/%s" % (name, label), fn, "%s: on a successful path, `%s` %s" % (name, label, "is false" if r is False else "is not established")
                              + ("\n  result: %s" % show(e2["result"]) if r is not True else ""), o)
                for a, x in (post or {}).items():
                    want = E(x, env); got = o.st.store.get(("arg", a), sym(a))
                    same = want is got or holds(facts, eq(want, got)) is True
                    self.must(same, "%s/final-%s" % (name, a), fn, "%s: the final state of `%s` is\n    %s\n  expected\n    %s" % (name, a, show(got), show(want)), o)
            elif o.tag in bad:
                nbad += 1
                res = [holds(o.st.facts, f if isinstance(f, T) else E(f, env)) for _, f in requires]
                self.must(any(r is False for r in res), "%s/rejects" % name, fn, "%s: a path is rejected although no requirement (%s) is refuted on it" % (name, ", ".join(l for l, _ in requires)), o)
            elif o.tag == "panic":
                if panics == "forbid": self.must(False, "%s/panic" % name, fn, "%s: a path panics" % name, o)
            elif other == "forbid":
                self.must(False, "%s/outcome-%s" % (name, o.tag), fn, "%s: unexpected outcome %s" % (name, o.tag), o)
        self.floor("%s successful paths" % name, nok, min_ok, fn)
        if min_bad is None: min_bad = 1 if requires and not any(False for _ in ()) else 0
        self.floor("%s rejecting paths" % name, nbad, min_bad, fn)
        return outs

    def table(self, name, fn, outs, cells, result=None):
        """decision table: for every path and every table row compatible with it, the path's outcome is the row's.
        cells: [(label, condition, tag or None, [formulas over post_*/result])]; every row must be reached by some path."""
        hit = {}
        for o in outs:
            e2 = {}
            v = o.val
            if isinstance(v, T): e2["result"] = adtf(v, "0") if is_adt(v, "Ok") else v
            for k, x in o.st.store.items():
                if k[0] == "arg": e2["post_" + k[1]] = x
            for label, cond, tag, posts in cells:
                g = cond if isinstance(cond, T) else E(cond)
                if holds(o.st.facts, g) is False: continue
                hit[label] = True
                d = dict(o.st.facts); d.update(fdict(expand([g])))
                if tag is not None and not self.must(o.tag == tag, "%s/%s" % (name, label), fn, "%s: in the case `%s` the outcome must be %s" % (name, label, tag), o): continue
                for p in posts:
                    f = p if isinstance(p, T) else E(p, e2)
                    self.must(holds(d, f) is True, "%s/%s" % (name, label), fn, "%s: in the case `%s` the outcome violates `%s`; it is %s" %
                              (name, label, p if isinstance(p, str) else show(p), " ".join("%s = %s" % (k, show(x)) for k, x in e2.items() if k == "result" or isinstance(p, str) and k in p)), o)
        for label, *_ in cells:
            self.must(label in hit, "%s/%s/covered" % (name, label), fn, "%s: no path handles the case `%s`" % (name, label))

    def choice(self, name, fn, o, requires, env=None, kind=None, which=0):
        """the value chosen by pick/predict on this path ranges over exactly the values satisfying the requirements"""
        evs = [e for e in o.st.events if e[0] == "nondet" and (kind is None or e[1] == kind)]
        if not self.must(len(evs) > which, name + "/choice-exists", fn, "%s: no nondeterministic choice is made" % name, o): return None
        ev = evs[which]
        env = dict(env or {}); env["x"] = ev[2]
        fs = [(l, f if isinstance(f, T) else E(f, env)) for l, f in requires]
        base = o.st.facts
        good0 = set(g for al in ev[3] for g in al)
        base = {f: v for f, v in base.items() if not any(f is (g.a[0] if g.k == "not" else g) for g in good0)}
        for al in ev[3]:
            d = dict(base); d.update(fdict(expand(al)))
            for l, f in fs:
                self.must(holds(d, f) is True, "%s/choice-%s" % (name, l), fn, "%s: a value may be chosen although `%s` is not established for it" % (name, l), o)
        for al in ev[6]:
            d = dict(base); d.update(fdict(expand(al)))
            self.must(any(holds(d, f) is False for l, f in fs), name + "/choice-complete", fn,
                      "%s: a value is excluded from the choice although it meets every requirement (%s); excluded under: %s" % (name, ", ".join(l for l, _ in fs), "; ".join(show(g) for g in al)), o)
        return ev

    # ---- finish
    def finish(self, meta):
        known = load_known()
        listed = {k: t for (p, k), t in known.items() if p == self.pid}
        viol, seen = [], set()
        groups = {}
        for v in self.viol: groups.setdefault(v.key, []).append(v)
        code = 0
        kept = []
        for k, vs in groups.items():
            if k in listed:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, listed[k]))
                kept.append(k)
                continue
            viol.append(vs[0])
        keys = sorted(set(self.obl))
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
              "coverage": {"explanation": meta["rule"], "analysed_functions": sorted(self.fnset), "inlined_functions": sorted(self.inl),
                           "paths": self.npaths, "obligations_checked": len(self.obl), "obligations_discharged": self.done, "rule_instances": len(keys),
                           "instances": keys[:400], "known_findings_matched": kept, "notes": self.notes},
              "assumptions": meta.get("assumptions", []), "violations": [], "wall_s": round(time.time() - self.t0, 3)}
        rp = os.path.join(VERIF, "evidence", self.pid + ".report.txt")
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        if viol:
            with open(rp, "w") as f:
                for v in viol: f.write("[%s] %s\n\n" % (v.key, v.text))
            ev["violations"] = [{"property": self.pid, "replay": rp, "summary": v.key + ": " + v.text.split("\n")[0]} for v in viol]
            for v in viol[:12]: print("[%s] %s\n" % (v.key, v.text))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            code = 1
        else:
            if os.path.exists(rp): os.remove(rp)
            print("OK property=%s functions=%d inlined=%d paths=%d obligations=%d (%d distinct) %.1fs" %
                  (self.pid, len(self.fnset), len(self.inl), self.npaths, len(self.obl), len(keys), time.time() - self.t0))
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
        return code


def load_known():
    res = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\w+) key=(\S+) (.*)", l.strip())
            if m: res[(m.group(1), m.group(2))] = m.group(3)
    return res


_md = {}


def locate(fn, body):
    """best effort: where in the repository's own sources the function is written"""
    if body is not None and not body.crate.startswith("minirust"): return body.span
    n = fn.split("::{")[0].rsplit("::", 1)[-1]
    if not _md:
        for p in glob.glob(os.path.join(front.REPO, "spec", "**", "*.md"), recursive=True):
            for i, l in enumerate(open(p), 1):
                m = re.search(r"\bfn (\w+)", l)
                if m: _md.setdefault(m.group(1), []).append("%s:%d" % (os.path.relpath(p, front.REPO), i))
    return ", ".join(_md.get(n, ["?"])[:4])


# ---- helpers shared by rules
def loops_over(o, n):
    """loop events of a path that visit every index 0..n-1 (or every element of a list of that length): (index, alternatives)"""
    for e in o.st.events:
        if e[0] != "loop": continue
        _, src, el, alts = e[:4]
        s = src
        if s.k == "enum" and el.k == "tuple": yield el.a[0][0], alts; continue
        if s.k == "adt" and s.a[0] == "Range" and adtf(s, "start") is intt(0) and adtf(s, "end") is n: yield el, alts


def writes(events, key=None):
    return [e for e in events if e[0] == "write" and (key is None or e[1] == key)]


def path_names(path): return tuple(k[1] if k[0] == "f" else k[2] if k[0] == "vf" else "[]" for k in path)


def base_of(t):
    """the value a sequence of updates/widenings started from"""
    while t.k in ("upd", "lvl", "loopvar", "minsert", "mremove", "sinsert", "push"):
        t = t.a[0] if t.k not in ("lvl", "loopvar") else t.a[1]
    return t


def loop_base(t):
    """what a term looked like before the loop it was widened in (only meaningful for the element the iteration itself owns)"""
    if t.k in ("lvl", "loopvar"): return loop_base(t.a[1])
    if not t.a: return t
    return mk(t.k, *[_lb(x) for x in t.a])


def _lb(x):
    if isinstance(x, T): return loop_base(x)
    if isinstance(x, tuple): return tuple(_lb(y) for y in x)
    return x


def loop_effects(o, lst_ok):
    """loops over all indices of a list accepted by lst_ok(list term): yields (index term, [(facts dict, [(path names, key, value, path)], [set inserts])]).
    Facts are rephrased over the state before the loop."""
    for e in o.st.events:
        if e[0] != "loop": continue
        _, src, el, alts = e[:4]
        idx = None
        s, x, _ = strip_src(src, el)
        if src.k == "enum" and el.k == "tuple": idx = el.a[0][0]; lst = src.a[0]
        elif s.k == "adt" and s.a[0] == "Range" and adtf(s, "start") is intt(0):
            n = adtf(s, "end"); idx = x
            lst = n.a[0] if n.k == "len" else n
        elif s.k in ("rev", "sorted"): continue
        else: lst, idx = s, x
        lst = loop_base(lst)
        if not lst_ok(lst): continue
        res = []
        for facts, evs in alts:
            d = dict(o.st.facts)
            for f, v in facts: d[simp(loop_base(f))] = v
            ws = [(path_names(w[2]), w[1], loop_base(w[3]), w[2]) for w in evs if w[0] == "write"]
            ins = [(loop_base(w[2]), loop_base(w[3])) for w in evs if w[0] == "op" and w[1] == "sinsert"]
            res.append((d, ws, ins))
        yield idx, res


def simp(t): return subst(t, {})
