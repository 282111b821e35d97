"""P37: a union keeps exactly the bytes that some field of it uses."""
import mz, tool
from terms import *
from tool import book

META = dict(rule="Decision table over the marking of bytes: for every type, exactly the bytes its values occupy (recursively, at the right offsets, for every field, element, variant, tag and discriminator branch) are marked used. "
                 "The loop turning marks into chunks is checked as a finite automaton: every transition (byte used or not, inside a chunk or not) opens, extends, closes or ignores as required, and an unused byte is appended so that the last chunk closes.")
T = r"""
## mz::calc_chunks(fields, size)
always => mark_used_bytes(each(fields).1, ~from_elem(False, size)[each(fields).0..]) for fields
## mz::mark_used_bytes(ty, markers)
ty is Enum => mark_discriminator(ty.Enum.discriminator, markers) ; mark_size(each(each(ty.Enum.variants).1.tagger).1.0.size, markers[each(each(ty.Enum.variants).1.tagger).0..]) for ty.Enum.variants for each(ty.Enum.variants).1.tagger ; mark_used_bytes(each(ty.Enum.variants).1.ty, markers) for ty.Enum.variants
ty is Union => mark_size(each(ty.Union.chunks).1, markers[each(ty.Union.chunks).0..]) for ty.Union.chunks
ty is Array => mark_used_bytes(ty.Array.elem, markers[each(Range{start: 0, end: ty.Array.count}) * layout(ty.Array.elem).Sized.0..]) for Range{start: 0, end: ty.Array.count}
ty is Tuple & not ty.Tuple.unsized_field is Some => mark_used_bytes(each(ty.Tuple.sized_fields).1, markers[each(ty.Tuple.sized_fields).0..]) for ty.Tuple.sized_fields
ty is Ptr & layout(ty) is Sized => mark_size(layout(ty).Sized.0, markers)
ty is Bool => mark_size(1, markers)
ty is Int => mark_size(ty.Int.0.size, markers)
## mz::mark_size(size, markers)
always => markers[each(Range{start: 0, end: size})] := True for Range{start: 0, end: size}
## mz::mark_discriminator(d, markers)
d is Branch => mark_discriminator(d.Branch.fallback, markers) ; mark_discriminator(each(d.Branch.children).1, markers) for d.Branch.children ; mark_size(d.Branch.value_type.size, markers[d.Branch.offset..])
d is Invalid => nothing
d is Known => nothing
"""
MARK = ["mz::mark_used_bytes", "mz::mark_size", "mz::mark_discriminator"]


def check(c):
    mz.setup()
    n = book(c, T, mz.STEPS + MARK, show=tool.effects(*MARK, result=False))
    c.floor("marking functions", n, 4)
    chunks(c)


def chunks(c):
    fn = "mz::calc_chunks"
    fname, args = tool.sig(fn + "(fields, size)")
    for o in c.paths(fn, opaque=mz.STEPS + MARK, prog=c.prog(*tool.ALL), args=args):
        if o.tag == "panic": continue
        c.must(not (o.val.k == "array" and not o.val.a[0]) and contains(o.val, args[1]), "chunks/recorded", fn, "the chunks returned do not depend on the marked bytes: %s" % tool.cshow(o.val)[:200], o)
        for e in o.st.events:
            if e[0] != "loop" or e[1].k != "enum": continue
            marks, st = e[1].a[0], [lv for lv, _ in (e[4][0] if e[4] else ()) if is_adt(lv.a[1], path="Option")]
            lst = [lv for lv, _ in (e[4][0] if e[4] else ()) if lv.a[1].k == "array"]
            if len(st) != 1 or len(lst) != 1: continue        # not written as this automaton: nothing is claimed about it
            (s,), (l,) = st, lst
            c.must(s.a[1] is NONE and not l.a[1].a[0], "chunks/start", fn, "before the first byte no chunk is open and none is recorded: found chunk state %s and list %s" % (tool.cshow(s.a[1]), tool.cshow(l.a[1])), o)
            c.must(marks.k == "push" and marks.a[1] is FALSE, "chunks/sentinel", fn, "the marks are not followed by an unused byte: a chunk that reaches the end of the union is lost", o)
            el = e[2]
            used = el.a[0][1] if el.k == "tuple" else None
            pos = el.a[0][0] if el.k == "tuple" else None
            want = {(True, False): (some(pos), l), (True, True): (s, l), (False, False): (s, l)}
            seen = set()
            for (fs, _), stp in zip(e[3], e[4]):
                d = dict(stp)
                u = next((v for f, v in fs if f is used), None)
                i = next((v if f.a[1] == "Some" else not v for f, v in fs if f.k == "is" and f.a[0] is s), None)
                if u is None or i is None: c.must(False, "chunks/transition", fn, "a transition does not depend on whether the byte is used and whether a chunk is open", o); continue
                seen.add((u, i))
                case = "a %s byte %s a chunk" % ("used" if u else "unused", "inside" if i else "outside")
                if (u, i) == (False, True):
                    x = d[l]
                    b = proj(s, ("vf", "Some", "0"))
                    ok = d[s] is NONE and x.k == "push" and x.a[0] is l and x.a[1] is tup(b, sub(pos, b))
                    c.must(ok, "chunks/close", fn, "%s: expected to record (start, position - start) and leave the chunk, found chunk state %s and list %s" % (case, tool.cshow(d[s]), tool.cshow(x)), o)
                else:
                    ok = (s if not i and d[s] is NONE and not u else d[s], d[l]) == want[u, i]
                    c.must(ok, "chunks/%s-%s" % (u, i), fn, "%s: wrong next state %s, list %s" % (case, tool.cshow(d[s]), tool.cshow(d[l])), o)
            c.must(len(seen) == 4, "chunks/all-transitions", fn, "the automaton lacks a transition", o)
