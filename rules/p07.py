"""P07: locks."""
from terms import *
from rule import E, holds, each
from query import Graph

META = dict(rule="Two-sided contracts with exact final states for lock creation, acquisition and release (ownership, blocking, hand-over to exactly one waiter chosen among exactly "
            "the waiters of that lock), the lock intrinsics' argument validation, and a whole-program query: lock states are written nowhere else.")


def check(c):
    f = "Machine::lock_create"
    c.contract("create", f, env={}, ensures=[("id is the index of the new lock", "result == len(self.locks)")], post={"self": "upd(self,'locks',push(self.locks, LockState.Unlocked))"}, panics="forbid")
    f = "Machine::lock_acquire"
    ex = ("the lock exists", "lock_id >= 0 and lock_id < len(self.locks)")
    outs = c.contract("acquire", f, requires=[ex], panics="forbid")
    n = 0
    for o in outs:
        if o.tag != "Ok": continue
        un = o.holds(E("self.locks[lock_id] is Unlocked"))
        if not c.must(un is not None, "acquire/decides", f, "acquisition does not depend on the lock's state", o): continue
        n += 1
        fin = o.st.store.get(("arg", "self"), sym("self"))
        want = E("upd(self,'locks',upd_at(self.locks,lock_id,LockState.LockedBy(self.active_thread)))") if un else \
            E("upd(self,'threads',upd_at(self.threads,self.active_thread,upd(self.threads[self.active_thread],'state',ThreadState.BlockedOnLock(lock_id))))")
        c.must(fin is want, "acquire/" + ("takes" if un else "blocks"), f, "acquiring a %s lock has the wrong effect: %s" % ("free" if un else "held", show(fin)), o)
    c.floor("acquire cases", n, 2, f)
    f = "Machine::lock_release"
    outs = c.contract("release", f, requires=[ex, ("held by the active thread", "self.locks[lock_id] is LockedBy and self.locks[lock_id].LockedBy._0 == self.active_thread")], panics="forbid")
    waiting = "el.state is BlockedOnLock and el.state.BlockedOnLock._0 == lock_id"
    none = each("self.threads", "not (%s)" % waiting)
    kinds = set()
    for o in outs:
        if o.tag != "Ok": continue
        fin = o.st.store.get(("arg", "self"), sym("self"))
        if not any(e[0] == "nondet" for e in o.st.events):
            kinds.add("free")
            c.must(holds(o.st.facts, none) is True, "release/frees-only-uncontended", f, "a lock is freed although a thread may be waiting for it", o)
            want = E("upd(self,'locks',upd_at(self.locks,lock_id,LockState.Unlocked))")
            c.must(fin is want, "release/frees", f, "releasing an uncontended lock has the wrong effect: %s" % show(fin), o)
        else:
            kinds.add("hand")
            ev = c.choice("release", f, o, [("a waiter of this lock", "x >= 0 and x < len(self.threads) and self.threads[x].state is BlockedOnLock and self.threads[x].state.BlockedOnLock._0 == lock_id")], kind="pick")
            if ev is None: continue
            d = ev[4][0]
            c.must(holds(o.st.facts, le(field(d, "start"), intt(0))) is True and holds(o.st.facts, ge(field(d, "end"), E("len(self.threads)"))) is True and field(d, "divisor") is intt(1),
                   "release/range", f, "not every waiting thread is considered for the hand-over: %s" % show(d), o)
            want = E("upd(upd(upd(self,'locks',upd_at(self.locks,lock_id,LockState.LockedBy(x))),'synchronized_threads',sinsert(self.synchronized_threads,x)),"
                     "'threads',upd_at(self.threads,x,upd(self.threads[x],'state',ThreadState.Enabled)))", {"x": ev[2]})
            c.must(fin is want, "release/hands-over", f, "handing a lock over has the wrong effect: %s" % show(fin), o)
    c.floor("release cases", len(kinds), 2, f)
    # intrinsics
    F = "Machine::eval_intrinsic"
    L = "IntrinsicLockOp"
    n0 = "len(arguments) == 0"; n1 = "len(arguments) == 1 and arguments[0]._0 is Int"
    unit = "ret_ty == call('unit_type')"
    for v, op, req in (("Create", "Machine::lock_create", [("no arguments", n0), ("integer return type", "ret_ty is Int")]),
                       ("Acquire", "Machine::lock_acquire", [("one integer argument", n1)]), ("Release", "Machine::lock_release", [("one integer argument", n1)])):
        outs = c.paths(F, assume=["intrinsic is Lock", "intrinsic.Lock._0 is %s" % v])
        k = 0
        for o in outs:
            cs = o.calls(op)
            others = [e for e in o.st.events if e[0] == "call" and e[1] in ("Machine::lock_create", "Machine::lock_acquire", "Machine::lock_release") and e[1] != op]
            c.must(not others, "intrinsic-%s/operation" % v, F, "lock intrinsic %s performs a different lock operation" % v, o)
            if o.tag == "Ok":
                k += 1
                c.must(len(cs) == 1 and all(holds(o.st.facts, E(r)) is True for _, r in req), "intrinsic-%s/validated" % v, F, "lock intrinsic %s succeeds without performing its operation once on validated arguments" % v, o)
                if cs and v != "Create":
                    c.must(cs[0][2][1] is E("arguments[0]._0.Int._0"), "intrinsic-%s/lock" % v, F, "lock intrinsic %s acts on a different lock" % v, o)
                    c.must(o.holds(isv(cs[0][3], "Ok")) is True, "intrinsic-%s/result" % v, F, "the outcome of the lock operation is ignored", o)
                elif cs:
                    c.must(adtf(o.val, "0") is E("Value.Int(x)", {"x": cs[0][3]}), "intrinsic-Create/result", F, "lock creation does not return the new lock's id", o)
            elif o.tag == "Ub":
                c.must(not cs, "intrinsic-%s/no-effect" % v, F, "a rejected lock intrinsic still has an effect", o)
        c.floor("successful paths of " + v, k, 1, F)
    G = Graph(c.P)
    al = {"Unlocked": {"Machine::lock_create", "Machine::lock_release"}, "LockedBy": {"Machine::lock_acquire", "Machine::lock_release"}}
    for v, ok in al.items():
        fs = [f for f in G.cons.get(("LockState", v), ()) if not ("erialize" in f or "Clone" in f)]
        c.floor("places producing lock state " + v, len(fs), 1)
        for f in fs: c.must(G.only_via(f, ok), "lockstate-%s:%s" % (v, f), f, "lock state %s is produced in `%s`" % (v, f))
