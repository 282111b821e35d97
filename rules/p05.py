"""P05: the synchronization window is exactly one step, and the step driver orders reset / evaluate / race check correctly."""
from terms import *
from rule import E, holds, base_of

META = dict(rule="On every completed path of the step function: tracking is reset before the step is evaluated and before the active thread changes; the race check runs after "
            "evaluation, exactly once, for the thread that ran, against exactly the previous step's accesses and the threads synchronized by the previous step (plus the previously "
            "active thread); the set of synchronized threads is empty when the step's evaluation starts. Threads enter that set only by being spawned, handed a lock, or released from a join.")

S = "Machine::step"
EVAL = ("Machine::eval_terminator", "Machine::eval_statement")


def check(c):
    outs = c.paths(S, inline=["Machine::reset_data_race_tracking"])
    n = 0
    for o in outs:
        evs = [e for e in o.st.events if e[0] == "call"]
        names = [e[1] for e in evs]
        ev = [i for i, x in enumerate(names) if x in EVAL]
        rs = [i for i, x in enumerate(names) if x == "ConcurrentMemory::reset_accesses"]
        ck = [i for i, x in enumerate(names) if x == "ConcurrentMemory::check_data_races"]
        if o.tag == "Deadlock": continue
        if ev:
            c.must(len(rs) == 1 and rs[0] < ev[0], "reset-before-eval", S, "the access list is not reset exactly once before the step is evaluated", o)
            c.must(len(ev) == 1, "one-eval", S, "a step evaluates %d statements/terminators" % len(ev), o)
            if rs:
                r = evs[rs[0]]
                c.must(r[2][0] is E("self.mem"), "reset-previous", S, "the reset does not act on the accesses left by the previous step", o)
                m = evs[ev[0]][2][0]
                sync = field(m, "synchronized_threads")
                c.must(sync is mk("empty", "Set"), "sync-cleared", "Machine::reset_data_race_tracking",
                       "when a step is evaluated, the set of synchronized threads still contains those of earlier steps: %s" % show(sync), o)
        if o.tag == "Ok":
            n += 1
            if not c.must(len(ck) == 1 and ev and ck[0] > ev[0], "check-after-eval", S, "a completed step does not check for data races exactly once after evaluation", o): continue
            k = evs[ck[0]]
            c.must(o.holds(isv(k[3], "Ok")) is True, "check-obeyed", S, "the verdict of the race check is ignored", o)
            after = o.st.store[("arg", "self")]
            c.must(k[2][0] is field(after, "mem"), "check-current-memory", S, "the race check does not inspect the accesses of this step", o)
            c.must(k[2][1] is field(after, "active_thread"), "check-current-thread", S, "the race check is done for a thread other than the one that ran: %s" % show(k[2][1]), o)
            prev = k[2][2]
            sync, acc = field(prev, "0"), field(prev, "1")
            c.must(sync is E("sinsert(self.synchronized_threads, self.active_thread)"), "check-prev-sync", S,
                   "the race check does not use the threads synchronized by the previous step plus the previously active thread, but %s" % show(sync), o)
            c.must(rs and acc is evs[rs[0]][3], "check-prev-accesses", S, "the race check does not use the previous step's accesses, but %s" % show(acc), o)
        elif ck and o.tag == "Err":
            pass
    c.floor("completed step paths", n, 2, S)
    # who may insert
    hits = {}
    sites = 0
    for b in c.P.fns():
        if b.crate != "minirust_rs" or "serde" in b.raw or "Clone" in b.raw or "GcCompat" in b.raw: continue
    from query import Graph
    G = Graph(c.P)
    allowed = {"Machine::spawn", "Machine::lock_release", "Machine::terminate_active_thread", "Machine::reset_data_race_tracking", S}
    for f, sp, body, t in G.sites.get("Set::insert", []):
        if not ("ThreadId" in t[1]["fn"] or True): continue
        if not f.startswith(("Machine::", "ConcurrentMemory::", "Thread::", "StackFrame::")): continue
        # an insertion into a set of integers (thread ids) reached from a machine
        ty = body.locals[t[2][0].get("m", t[2][0].get("c", [0]))[0]] if isinstance(t[2][0], dict) and ("m" in t[2][0] or "c" in t[2][0]) else ""
        if "Int" not in ty: continue
        sites += 1
        c.must(G.only_via(f, allowed), "sync-insert:" + f, f, "a thread is marked as synchronized in `%s`, which is neither spawn, lock hand-over nor thread termination" % f)
    c.floor("places marking a thread synchronized", sites, 4)
    # spawn: exactly the new thread
    f = "Machine::spawn"; k = 0
    for o in c.paths(f):
        if o.tag != "Ok": continue
        k += 1
        nt = o.calls("Machine::new_thread")
        fin = field(o.st.store[("arg", "self")], "synchronized_threads")
        ok = len(nt) == 1 and fin.k == "sinsert" and fin.a[1] is vfield(nt[0][3], "Ok", "0") and base_of_after(fin.a[0], "synchronized_threads")
        c.must(ok, "spawn-sync", f, "spawning does not mark exactly the new thread as synchronized: %s" % show(fin), o)
    c.floor("spawn paths", k, 1, f)
    f = "Machine::lock_release"; k = 0
    for o in c.paths(f):
        if o.tag != "Ok": continue
        fin = field(o.st.store[("arg", "self")], "synchronized_threads")
        nd = [e for e in o.st.events if e[0] == "nondet"]
        if nd:
            k += 1
            c.must(fin is mk("sinsert", E("self.synchronized_threads"), nd[0][2]), "handover-sync", f, "handing over a lock does not mark exactly the acquirer as synchronized: %s" % show(fin), o)
        else: c.must(fin is E("self.synchronized_threads"), "release-sync", f, "releasing an uncontended lock changes the synchronized threads: %s" % show(fin), o)
    c.floor("hand-over paths", k, 1, f)
    f = "Machine::lock_acquire"
    for o in c.paths(f):
        c.must(field(o.st.store[("arg", "self")], "synchronized_threads") is E("self.synchronized_threads"), "acquire-sync", f, "acquiring a lock changes the synchronized threads", o)
    f = "Machine::join"
    for o in c.paths(f):
        c.must(field(o.st.store[("arg", "self")], "synchronized_threads") is E("self.synchronized_threads"), "join-sync", f, "join changes the synchronized threads", o)


def base_of_after(t, fld):
    return t.k == "f" and t.a[1] == fld
