"""P49: run natively, the functions of the `intrinsics` crate do what minimize's intrinsics do."""
import re
import tool
from terms import *
from tool import cshow, reduce

META = dict(rule="Decision table: for every function of the crate, the result, the effects (library calls that print, allocate, run threads or access memory atomically; changes of the shared tables, which start empty) and the condition they happen under are compared with the table on every path.")
T = r"""
## print(t)
always => () ; _print("{t}\n")
## eprint(t)
always => () ; _eprint("{t}\n")
## exit()
always => exit!(0)
## allocate(size, align)
always => ALLOC(LAYOUT) ; allocate(System, LAYOUT)
## deallocate(ptr, size, align)
always => () ; FREE(ptr, LAYOUT)
## spawn(fn_ptr, data_ptr)
always => len(JOIN_HANDLES) ; JOIN_HANDLES := push(JOIN_HANDLES, Some(THREAD)) ; thread: {fn_ptr(data_ptr)}
## join(thread_id)
JOIN_HANDLES[thread_id] is Some => () ; JOIN_HANDLES[thread_id] := None ; join(JOIN_HANDLES[thread_id].Some.0)
## create_lock()
always => len(LOCKS) ; LOCKS := push(LOCKS, Open)
## acquire(lock_id)
LOCKS[lock_id] is Open => () ; LOCKS[lock_id] := Locked ; again unless LOCKS[lock_id] is Open: {WAITING := push(WAITING, current()) ; park()}
## release(lock_id)
always => () ; LOCKS[lock_id] := Open ; for all of WAITING: {unpark(each(WAITING))}
## atomic_store(ptr, value)
always => () ; store(AT(ptr), value, SeqCst)
## atomic_load(ptr)
always => load(AT(ptr), SeqCst)
## compare_exchange(ptr, current, new)
CAS is Ok => CAS.Ok.0
CAS is Err => CAS.Err.0
## atomic_fetch_add(ptr, delta)
always => fetch_add(AT(ptr), delta, SeqCst)
## atomic_fetch_sub(ptr, delta)
always => fetch_sub(AT(ptr), delta, SeqCst)
"""
TEXT = [("from_size_align(size, align).Ok.0", "LAYOUT"), ("as_ptr(<System as Allocator>::allocate(System, LAYOUT).Ok.0)", "ALLOC(LAYOUT)"), ("deallocate(System, new(ptr).Some.0, LAYOUT)", "FREE(ptr, LAYOUT)"),
        ("from_ptr(ptr)", "AT(ptr)"), ("compare_exchange(AT(ptr), current, new, SeqCst, SeqCst)", "CAS"), (", RangeFull)", ")")]
"""effects that only name what another value is made of"""
PURE = ("from_size_align", "size_of", "align_of", "size_of_val", "align_of_val", "from_secs", "from_millis", "from_micros", "type_name", "now", "elapsed", "id", "clone", "eq", "to_string", "from_ptr", "new", "as_ptr", "len", "current", "cast", "drain", "take", "deref", "index", "fmt", "load", "compare_exchange", "fetch_add", "fetch_sub")


def lib(n): return n.rsplit("::", 1)[-1].rstrip("0123456789#")


def text(o, t):
    s = re.sub(r"spawn\(\|[^|]*\|(\[[^\]]*\])?\)", "THREAD", cshow(reduce(o.st.facts, t)))
    return plain(s)


def plain(s):
    """the contents of a table, whichever time it is locked; what `drain` goes over; the two states of a lock"""
    s = re.sub(r"\b(JOIN_HANDLES|LOCKS|WAITING)'+", r"\1", s)
    return re.sub(r"drain\(WAITING(, RangeFull)?\)", "WAITING", s)


def cond(fs):
    out = []
    for f, v in fs:
        if f.k == "forall": continue
        if f.k == "is" and f.a[1] == "Locked": f, v = mk("is", f.a[0], "Open"), not v
        out.append(("" if v else "not ") + plain(cshow(f)))
    return " && ".join(sorted(out))


WAKE = "for all of WAITING: {unpark(each(WAITING))}"
"""other ways to empty the queue and wake everyone in it"""
def wake(out):
    out = set(out)
    if {"again if pop(WAITING) is Some: {pop(WAITING) ; unpark(pop(WAITING).Some.0)}", "pop(WAITING)"} <= out: out = {x for x in out if "pop(WAITING)" not in x} | {WAKE}
    if WAKE in out: out -= {"WAITING := default", "WAITING := []", "clear(WAITING)"}
    return sorted(out)


def effects(o, evs):
    out = []
    for e in evs:
        if e[0] == "thread": out += ["thread: {%s}" % " ; ".join(effects(o, ev)) for _, ev in e[1]]
        elif e[0] == "call" and str(e[1]).startswith("apply:"): out.append("%s(%s)" % (text(o, e[2][0]), ", ".join(text(o, a) for a in e[2][1:])))
        elif e[0] == "call" and lib(str(e[1])) not in PURE: out.append("%s(%s)" % (lib(str(e[1])), ", ".join(text(o, a) for a in e[2])))
        elif e[0] == "write" and str(e[1][1]).startswith("static "):
            out.append("%s%s := %s" % (e[1][1][7:], "".join("[%s]" % text(o, p[1]) if p[0] == "idx" else "." + str(p[-1]) for p in e[2]), text(o, e[3])))
        elif e[0] in ("loop", "while"):
            for fs, ev in e[3]:
                why = cond(fs)
                head = "for all of " + text(o, e[1]) + (" if " + why if why else "") if e[0] == "loop" else ("again if " + why).replace("if not ", "unless ")
                out.append("%s: {%s}" % (head, " ; ".join(effects(o, ev))))
    return wake(out)


def show(o): return " ; ".join([text(o, o.val)] + effects(o, o.st.events))


show.effects = lambda o: effects(o, o.st.events)


def fns(P): return [b for (n, pr), b in sorted(P.bodies.items(), key=str) if pr is None and n.startswith("intrinsics::") and b.kind == "fn"]


def check(c):
    P = c.prog("intrinsics")
    tool.HALTS.add("exit"); tool.TEXT[:] = TEXT
    n = 0
    for blk in T.strip().split("## ")[1:]:
        head, body = blk.split("\n", 1)
        fn, args = tool.sig(head)
        tool.cases(c, fn, "intrinsics::" + fn, body, show=show, args=args, P=P)
        n += 1
    for t in ("JOIN_HANDLES", "LOCKS", "WAITING"):
        for o in c.paths("intrinsics::" + t, prog=P): c.must(o.tag == "value" and cshow(o.val) in ("new([])", "Mutex::new([])", "new(default)", "default"), "starts/" + t, t, "the table does not start empty: %s" % cshow(o.val), o)
    c.floor("functions of the crate", n, 15)
