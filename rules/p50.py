"""P50: the native intrinsics neither deadlock on their own tables nor lose a wakeup."""
import re
from terms import *
from tool import cshow

META = dict(rule="Lock-set analysis of every path of every function of the crate: no mutex is locked again, nothing that waits for another thread (join, park, sleep, a callback) is done while one is held, and the order in which "
                 "mutexes are nested has no cycle. No lost wakeup: a thread that parks is in the queue before it lets go of the mutex under which it saw the lock taken; the lock is marked taken in the critical section that saw it open; "
                 "and whoever opens it afterwards unparks everyone in the queue.")
WAITS = {"JoinHandle::join", "park", "thread::park", "park_timeout", "sleep", "Condvar::wait", "Condvar::wait_while", "Receiver::recv", "Barrier::wait", "scope", "spin_loop"}
lib = lambda n: str(n).rsplit("#", 1)[0]
versions = lambda t: {x.a[0] for x in subterms(t) if x.k == "sym" and re.match(r"[A-Z_]+'*$", str(x.a[0]))}
contents = lambda t: sorted({x.a[0].rstrip("'") for x in subterms(t) if x.k == "sym" and re.match(r"[A-Z_]+'*$", str(x.a[0]))})


class Section:
    """a critical section: the mutex, what was seen in it and done in it so far"""
    def __init__(self, mutex, at): self.mutex = mutex; self.at = at; self.queued = set(); self.took = []


class Walk:
    def __init__(self, c, fn, o, edges): self.c = c; self.fn = fn; self.o = o; self.edges = edges; self.parks = []; self.opens = []; self.wakes = []; self.took = []; self.n = 0

    def run(self, evs, facts, held=(), base=0, loop=None):
        """evs: what one path does, in order; held: the open critical sections"""
        c, held, past = self.c, list(held), []
        whiles = [e for e in evs if e[0] == "while"]
        for i, e in enumerate(evs):
            for w in whiles:
                if w[5] - base == i: [self.run(ev, fs, held, w[5], True) for fs, ev in w[3]]
                if w[5] - base == i: self.emptied(w[3], facts)
            names = [s.mutex for s in held]
            if e[0] == "lock":
                self.n += 1
                c.must(e[1] not in names, "relock/%s/%s" % (self.fn, e[1][7:]), self.fn, "%s is locked while it is already held (since %s): the thread waits for itself" % (e[1][7:], next((s.at for s in held if s.mutex == e[1]), "")), self.o)
                for s in held: self.edges.setdefault((s.mutex, e[1]), (self.fn, e[2]))
                held.append(Section(e[1], e[2]))
            elif e[0] == "unlock":
                for s in [s for s in held if s.mutex == e[1]][-1:]: held.remove(s); past.append(s)
            elif e[0] == "op" and e[1] == "push" and show(e[3]) in ("current()", "thread::current()"):
                for s in held: s.queued |= set(contents(e[2]))
            elif e[0] == "write" and str(e[1][1]).startswith("static ") and e[3] is not None and isinstance(e[3], T) and e[3].k == "adt" and str(e[3].a[0]).endswith("LockState"):
                sec = next((s for s in held if s.mutex == e[1][1]), None)
                if e[3].a[1] == "Open": self.opens.append(len(self.wakes))
                else: self.took.append((sec, [f for f, v in facts if f.k == "is" and (f.a[1], v) in (("Open", True), ("Locked", False))]))
            elif e[0] == "thread":
                for fs, ev in e[1]: self.run(ev, fs, (), base)
            elif e[0] == "loop":
                for fs, ev in e[3]: self.run(ev, fs, held, base)
                if e[3] and all(any(x[0] == "call" and lib(x[1]) == "Thread::unpark" and x[2][0] is e[2] for x in ev) for fs, ev in e[3]): self.wakes.append(contents(e[1]))
            elif e[0] == "call" and (lib(e[1]) in WAITS or str(e[1]).startswith("apply:")):
                self.n += 1
                what = "a function given by the caller" if str(e[1]).startswith("apply:") else lib(e[1])
                c.must(not held, "waits/%s/%s" % (self.fn, what.replace(" ", "-")), self.fn, "%s is called at %s while %s is held (since %s): whoever it waits for may need it" % (what, e[4], ", ".join(n[7:] for n in names), ", ".join(s.at for s in held)), self.o)
                if lib(e[1]) in ("park", "thread::park"): self.parks.append((e[4], facts, past[:], loop))


    def emptied(self, alts, after):
        """a loop that pops entries until there are none, and unparks each"""
        tops = [[x for f, v in fs if v and f.k == "is" and f.a[1] == "Some" for x in [f.a[0]] if x.k == "eff" and lib(x.a[0]).endswith("pop")] for fs, _ in alts]
        if not alts or not all(tops): return
        if not all(any(e[0] == "call" and lib(e[1]) == "Thread::unpark" and any(contains(e[2][0], x) for x in t) for e in ev) for t, (_, ev) in zip(tops, alts)): return
        if any(v == (f.a[1] == "None") and f.k == "is" and f.a[0].k == "eff" and lib(f.a[0].a[0]).endswith("pop") for f, v in after): self.wakes.append(contents(tops[0][0]))


def check(c):
    P = c.prog("intrinsics")
    edges, n, parkers, openers, takers, handed = {}, 0, [], [], [], []
    for (name, pr), b in sorted(P.bodies.items(), key=str):
        if pr is not None or not name.startswith("intrinsics::") or b.kind != "function": continue
        n += 1
        for o in c.paths(name, prog=P, opaque=[]):
            if o.tag == "panic": continue
            w = Walk(c, name, o, edges)
            w.run(o.st.events, [(f, v) for f, v in o.st.order])
            # a number handed out is that of the entry added: both in one critical section
            given = versions(o.val) if o.val is not None else set()
            for e in o.st.events:
                if e[0] == "op" and e[1] == "push" and {x.rstrip("'") for x in given} & set(contents(e[2])):
                    handed.append(name)
                    c.must(versions(e[2]) & given == given, "number/%s" % name, name, "the number returned is read from %s in another critical section than the one that adds the entry: another thread can add one in between" % contents(e[2])[0], o)
            if not b.pub: continue
            for at, facts, past, loop in w.parks:
                # the mutex under which the reason to wait was seen
                seen = sorted({"static " + m for f, v in facts for m in contents(f)})
                parkers.append((name, at))
                ok = any(s.mutex in seen and s.queued for s in past)
                c.must(ok, "lost-wakeup/%s" % name, name, "park at %s: the thread is not put into the queue before %s is released, so it can miss the wakeup and sleep forever" % (at, ", ".join(x[7:] for x in seen) or "the mutex under which it saw the lock taken"), o)
                c.must(bool(loop), "recheck/%s" % name, name, "park at %s: after waking up, the thread must look at the lock again" % at, o)
            for k in w.opens:
                openers.append(name)
                c.must(any(w.wakes[k:]), "wakes/%s" % name, name, "a lock is opened without unparking, afterwards, every thread in the queue", o)
            for sec, why in w.took:
                takers.append(name)
                same = sec is not None and any(x.k == "sym" and x.a[0].rstrip("'") == sec.mutex[7:] for f in why for x in subterms(f))
                c.must(same and fresh(o, sec, why), "take/%s" % name, name, "a lock is marked taken outside the critical section in which it was seen open", o)
    # the nesting order of the mutexes
    order = {}
    for (a, b), _ in edges.items(): order.setdefault(a, set()).add(b)
    for (a, b), (fn, at) in sorted(edges.items()):
        todo, reach = [b], set()
        while todo:
            x = todo.pop()
            if x in reach: continue
            reach.add(x); todo += order.get(x, ())
        c.must(a not in reach, "order/%s-%s" % (a[7:], b[7:]), fn, "%s is locked at %s while %s is held, and elsewhere it is the other way round: two threads can wait for each other" % (b[7:], at, a[7:]))
    c.floor("functions of the crate", n, 15)
    c.floor("places a thread parks", len(set(parkers)), 1)
    c.floor("functions that open a lock", len(set(openers)), 1)
    c.floor("functions that hand out a number", len(set(handed)), 2)
    c.floor("functions that take a lock", len(set(takers)), 1)


def fresh(o, sec, why):
    """the contents the condition speaks about are those of the section the write is in (contents are renamed each time a mutex is locked)"""
    now = o.st.store.get(("arg", sec.mutex))
    return any(contains(now, x) for f in why for x in subterms(f) if x.k == "sym" and x.a[0].rstrip("'") == sec.mutex[7:]) if now is not None else False
