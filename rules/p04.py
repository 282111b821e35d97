"""P04: data races: decision table and access recording."""
from terms import *
from rule import each, E, holds
from query import Graph

META = dict(rule="Two-sided contract on the race check (UB iff the current thread was not synchronized by the previous step and some pair of accesses of the two steps overlaps, "
            "includes a store and includes a non-atomic access); every load/store through the concurrent memory records exactly one access with its kind, atomicity, address and length; "
            "whole-program query: the memory model's raw load/store are reached only through those recording wrappers; atomicity used per entry point of the machine.")

ENV = {"race": "not (a.ty is Load and b.ty is Load) and not (a.atomicity is Atomic and b.atomicity is Atomic) and a.addr + a.len > b.addr and b.addr + b.len > a.addr"}


def check(c):
    F = "ConcurrentMemory::check_data_races"
    prev = sym("prev")
    cur = E("self.accesses")
    inner = each("prev._1", neg(E(ENV["race"], {"a": mk("placeholder", cur), "b": mk("placeholder", E("prev._1"))})))
    nb = each(cur, inner)
    P = c.P
    b = P.fn(F)
    if not c.must(b is not None, "anchor", F, "race check not found"): return
    c.contract("races", F, args={3: prev}, requires=[("synchronized or race-free", disj(E("contains(prev._0, current_thread)"), nb))],
               min_ok=2, min_bad=2, panics="forbid", post=None)
    for op, lt_, n in (("store", "Store", "len(bytes)"), ("load", "Load", "len")):
        f = "ConcurrentMemory::" + op
        k = 0
        for o in c.paths(f, env={}):
            if o.tag == "panic": continue
            k += 1
            ln = sym("len") if op == "load" else E("len(bytes)")
            want = E("push(self.accesses, Access(ty=AccessType.%s, atomicity=atomicity, addr=ptr.addr, len=n))" % lt_, {"n": ln})
            cs = o.calls("Memory::" + op)
            fin = field(o.st.store[("arg", "self")], "accesses")
            c.must(fin is want, op + "/records", f, "%s does not record exactly one %s access with its own atomicity, address and length; recorded: %s" % (op, lt_.lower(), show(fin)), o)
            want_args = (sym("ptr"), sym("len") if op == "load" else sym("bytes"), sym("align"))
            c.must(len(cs) == 1 and o.val is cs[0][3] and cs[0][2][1:4] == want_args, op + "/forwards", f,
                   "%s does not perform exactly the requested access on the memory model and return its result" % op, o)
        c.floor(op + " paths", k, 1, f)
    f = "ConcurrentMemory::reset_accesses"
    for o in c.paths(f):
        c.must(o.val is E("self.accesses"), "reset/returns", f, "the previous step's accesses are not returned", o)
        fin = field(o.st.store[("arg", "self")], "accesses")
        c.must(fin is mk("array", ()), "reset/clears", f, "the access list is not emptied for the next step", o)
    G = Graph(P)
    allowed = {"load": {"ConcurrentMemory::load"}, "store": {"ConcurrentMemory::store"}}
    for op in allowed:
        cs = [x for x in G.callers("Memory::" + op)]
        c.floor("callers of the raw " + op, len(cs), 1)
        for x in cs:
            c.must(G.only_via(x, allowed[op]), "raw-%s:%s" % (op, x), x, "`%s` performs a raw %s on the memory model that the race detector does not see" % (x, op))
    # atomicity per machine entry point
    MEMOPS = ("Machine::typed_load", "Machine::typed_store", "ConcurrentMemory::load", "ConcurrentMemory::store")
    def atom(cs):
        t = cs[1]
        return {"Machine::typed_load": 4, "Machine::typed_store": 5, "ConcurrentMemory::load": 4, "ConcurrentMemory::store": 4}[t]
    ATOMIC = {"AtomicStore", "AtomicLoad", "AtomicCompareExchange", "AtomicFetchAndOp"}
    seen = {}
    for v in P.variants("IntrinsicOp"):
        for o in c.paths("Machine::eval_intrinsic", inline=["Machine::load_raw_data"], assume=["intrinsic is %s" % v]):
            for m in MEMOPS:
                for cs in o.calls(m):
                    a = cs[2][atom(cs)]
                    want = "Atomic" if v in ATOMIC else "None"
                    seen.setdefault(v, 0); seen[v] += 1
                    c.must(o.holds(isv(a, want)) is True, "intrinsic-%s/atomicity" % v, "Machine::eval_intrinsic", "intrinsic %s performs a memory access with the wrong atomicity: %s" % (v, show(a)), o)
    for v in ATOMIC: c.floor("accesses of " + v, seen.get(v, 0), 1, "Machine::eval_intrinsic")
    n = 0
    for f in ("Machine::eval_terminator", "Machine::eval_statement", "Machine::eval_place", "Machine::eval_value", "Machine::place_load", "Machine::place_store",
              "Machine::create_frame", "Machine::load_raw_data", "ConcurrentMemory::deinit"):
        for o in c.paths(f):
            for m in MEMOPS:
                for cs in o.calls(m):
                    n += 1
                    a = cs[2][atom(cs)]
                    c.must(o.holds(isv(a, "None")) is True, f + "/non-atomic", f, "an ordinary access is performed with atomicity %s" % show(a), o)
    c.floor("ordinary accesses", n, 6)
