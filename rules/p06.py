"""P06: threads: scheduling choice, deadlock, blocking, joining, termination."""
from terms import *
from rule import E, holds, each, loop_effects, base_of, writes
from query import Graph

META = dict(rule="Exactness of the scheduler's choice (a thread may be picked iff it is enabled), deadlock iff no thread is enabled; state-transition contracts of thread "
            "creation, join and termination (a terminating thread wakes exactly the threads joining it); whole-program query: thread states are written nowhere else.")
STEP, TERM, JOIN, NEW = "Machine::step", "Machine::terminate_active_thread", "Machine::join", "Machine::new_thread"


def check(c):
    # scheduler
    n = 0
    none_enabled = each("self.threads", "not (el.state is Enabled)")
    for o in c.paths(STEP):
        if o.tag == "Deadlock":
            n += 1
            c.must(holds(o.st.facts, none_enabled) is True, "deadlock-means-blocked", STEP, "a deadlock is reported although some thread may be enabled", o)
            continue
        ev = c.choice("schedule", STEP, o, [("chosen thread is enabled", "x >= 0 and x < len(self.threads) and self.threads[x].state is Enabled")], kind="pick")
        if ev is None: continue
        d = ev[4][0]
        c.must(holds(o.st.facts, le(field(d, "start"), intt(0))) is True and holds(o.st.facts, ge(field(d, "end"), E("len(self.threads)"))) is True and field(d, "divisor") is intt(1),
               "schedule/range", STEP, "the scheduler does not consider every thread: %s" % show(d), o)
        fr = [e for e in o.st.events if e[0] == "call" and e[1] in ("Machine::eval_terminator", "Machine::eval_statement")]
        for e in fr:
            c.must(field(e[2][0], "active_thread") is ev[2], "schedule/runs-chosen", STEP, "the step is evaluated for a thread other than the chosen one", o)
            env = dict(F=E("self.threads[x].stack[len(self.threads[x].stack)-1]", {"x": ev[2]}))
            want = E("get(F.func.blocks, F.next_block).Some._0.%s" % ("terminator" if e[1].endswith("terminator") else "statements[F.next_stmt]"), env)
            c.must(e[2][1] is want, "step/instruction", STEP, "the instruction evaluated is not the one at the program counter: %s" % show(e[2][1]), o)
            eqf = E("F.next_stmt == len(get(F.func.blocks, F.next_block).Some._0.statements)", env)
            c.must(holds(o.st.facts, eqf) is (e[1] == "Machine::eval_terminator"), "step/kind", STEP, "terminator/statement is not selected by comparing the program counter with the number of statements", o)
            fin = o.st.store[("arg", "self")]
            if o.tag == "Ok":
                if e[1] == "Machine::eval_terminator": pass
                else:
                    st = [w for w in writes(o.st.events, ("arg", "self")) if any(k[0] == "f" and k[1] == "next_stmt" for k in w[2])]
                    M = base_of(fin)
                    env2 = dict(M=M)
                    act, last = E("M.active_thread", env2), E("len(M.threads[M.active_thread].stack)-1", env2)
                    ok = len(st) == 1 and st[0][2] == (("f", "threads"), ("idx", act), ("f", "stack"), ("idx", last), ("f", "next_stmt")) \
                        and st[0][3] is E("M.threads[M.active_thread].stack[len(M.threads[M.active_thread].stack)-1].next_stmt + 1", env2)
                    c.must(ok, "step/pc-bump", STEP, "a completed statement does not advance the program counter by exactly one", o)
    c.floor("deadlock paths", n, 1, STEP)

    # creation
    k = 0
    for o in c.paths(NEW):
        if o.tag != "Ok": continue
        k += 1
        cs = o.calls("Machine::create_frame")
        a = cs[0][2] if len(cs) == 1 else (None,) * 6
        ok = len(cs) == 1 and a[1] is sym("func") and isinstance(a[2], T) and a[2].k == "adt" and a[2].a[1] == "BottomOfStack" and a[3].k == "adt" and a[3].a[1] == "C" and a[5] is sym("args")
        c.must(ok, "new/frame", NEW, "a new thread's first frame is not a bottom-of-stack frame of the given function, C calling convention and arguments", o)
        if not ok: continue
        unit = a[4]
        c.must(is_adt(unit, "Tuple") and adtf(unit, "sized_fields") is mk("array", ()) and adtf(unit, "unsized_field").k == "adt" and adtf(unit, "unsized_field").a[1] == "None",
               "new/return-type", NEW, "the first frame's return type is not the unit type", o)
        fin = o.st.store[("arg", "self")]
        th = field(fin, "threads")
        okk = th.k == "push" and th.a[0].k == "f"
        t = th.a[1] if okk else None
        c.must(okk and field(t, "state") is E("ThreadState.Enabled") and field(t, "stack") is mk("array", (vfield(cs[0][3], "Ok", "0"),)) and field(t, "unwind_payloads") is mk("array", ()),
               "new/thread", NEW, "the new thread is not appended as enabled, with exactly its first frame and no unwind payloads: %s" % show(th), o)
        c.must(okk and adtf(o.val, "0") is E("len(x)", {"x": th.a[0]}), "new/id", NEW, "the returned thread id is not the index of the new thread", o)
    c.floor("thread creation paths", k, 1, NEW)

    # join
    outs = c.contract("join", JOIN, requires=[("the thread exists", "thread_id >= 0 and thread_id < len(self.threads)")], panics="forbid")
    for o in outs:
        if o.tag != "Ok": continue
        fin = o.st.store.get(("arg", "self"), sym("self"))
        done = o.holds(E("self.threads[thread_id].state is Terminated"))
        if done is True:
            c.must(fin is sym("self"), "join/terminated", JOIN, "joining a terminated thread changes the machine", o)
        else:
            c.must(done is False, "join/decides", JOIN, "join does not depend on whether the thread has terminated", o)
            want = E("upd(self,'threads',upd_at(self.threads, self.active_thread, upd(self.threads[self.active_thread],'state',ThreadState.BlockedOnJoin(thread_id))))")
            c.must(fin is want, "join/blocks", JOIN, "joining a running thread does not exactly block the active thread on it: %s" % show(fin), o)

    # termination
    outs = c.contract("terminate", TERM, requires=[("not the main thread", "self.active_thread != 0")])
    k = 0
    for o in outs:
        if o.tag != "Ok": continue
        fin = o.st.store[("arg", "self")]
        th = [w for w in writes(o.st.events, ("arg", "self")) if w[2] and w[2][0] == ("f", "threads")]
        own = [w for w in th if len(w[2]) >= 2 and w[2][1][0] == "idx" and w[2][1][1] is E("self.active_thread")]
        c.must(len(own) == 1 and own[0][2][2:] == (("f", "state"),) and own[0][3] is E("ThreadState.Terminated"), "terminate/own-state", TERM,
               "the active thread is not exactly marked as terminated", o)
        loops = [l for l in loop_effects(o, lambda l: base_of(l) is E("self.threads") or base_of(l) is E("len(self.threads)"))]
        effectful = [(i, r) for i, r in loops if any(ws for _, ws, _ in r)]
        if not c.must(len(effectful) == 1, "terminate/wakes", TERM, "expected one pass over all threads waking the joiners, found %d" % len(effectful), o): continue
        i, alts = effectful[0]
        k += 1
        before = [E("self.threads"), E("upd_at(self.threads, self.active_thread, upd(self.threads[self.active_thread],'state',ThreadState.Terminated))")]
        for d, ws, ins in alts:
            conds = [holds(d, E("L[i].state is BlockedOnJoin and L[i].state.BlockedOnJoin._0 == self.active_thread", {"L": L, "i": i})) for L in before]
            cond = next((x for x in conds if x is not None), None)
            stw = [w for w in ws if w[0][0] == "threads"]
            if ws:
                c.must(cond is True, "terminate/wakes-only-joiners", TERM, "a thread may be woken (or changed) although it is not blocked on joining the terminating thread", o)
                c.must(len(stw) == 1 and stw[0][0] == ("threads", "[]", "state") and stw[0][3][1][1] is i and stw[0][2] is E("ThreadState.Enabled"),
                       "terminate/wake-state", TERM, "a joining thread is not exactly set to enabled", o)
                syn = [w for w in ws if w[0] == ("synchronized_threads",)]
                c.must(len(ins) == 1 and ins[0][1] is i and len(syn) == 1 and len(ws) == 2, "terminate/wake-sync", TERM,
                       "a woken thread is not exactly recorded as synchronized with the terminating thread", o)
            else:
                c.must(cond is False, "terminate/wakes-all-joiners", TERM, "a thread joining the terminating thread may be left blocked", o)
        b = fin
        touched = set()
        while b.k == "upd": touched.add(b.a[1]); b = b.a[0]
        c.must(b is sym("self") and touched <= {("f", "threads"), ("f", "synchronized_threads")}, "terminate/frame", TERM, "terminating a thread changes other parts of the machine: %s" % sorted(map(str, touched)), o)
    c.floor("termination passes", k, 1, TERM)

    # who constructs thread states
    G = Graph(c.P)
    allowed = {"Terminated": {TERM}, "BlockedOnJoin": {JOIN, TERM}, "BlockedOnLock": {"Machine::lock_acquire", "Machine::lock_release"},
               "Enabled": {NEW, TERM, "Machine::lock_release", STEP}}
    for v, al in allowed.items():
        fs = [f for f in G.cons.get(("ThreadState", v), ()) if not ("erialize" in f or "Clone" in f)]
        c.floor("places producing thread state " + v, len(fs), 1)
        for f in fs:
            c.must(G.only_via(f, al), "state-%s:%s" % (v, f), f, "thread state %s is produced in `%s`, outside the operations entitled to it" % (v, f))
    # reaching the end of the stack terminates the thread; nothing else does
    fs = [f for f in G.callers(TERM)]
    for f in fs:
        c.must(G.only_via(f, {"Machine::eval_terminator"}), "terminate-called-by:" + f, f, "a thread is terminated from `%s`" % f)
    c.floor("callers of thread termination", len(fs), 1)
