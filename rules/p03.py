"""P03: leak check."""
from terms import *
from rule import each
META = dict(rule="Two-sided contract on the leak check (a leak is reported iff some live allocation is of heap kind), on the exit path (the machine stops normally only after "
            "the leak check succeeded), and a whole-program query: a normal machine stop is raised only by that exit path.")
from query import Graph


def check(c):
    req = [("no live heap allocation", each("self.allocations", "not (el.live and el.kind is Heap)"))]
    c.contract("leak", "<BasicMemory as Memory>::leak_check", requires=req, bad=("MemoryLeak",), panics="forbid")
    req = [("no live heap allocation", each("self.mem.allocations", "not (el.live and el.kind is Heap)"))]
    c.contract("leak-tb", "<TreeBorrowsMemory as Memory>::leak_check", requires=req, bad=("MemoryLeak",), panics="forbid")
    for o in c.paths("ConcurrentMemory::leak_check"):
        cs = o.calls("Memory::leak_check")
        c.must(len(cs) == 1 and o.val is cs[0][3] and cs[0][2][0] is E_("self.memory"), "forward", "ConcurrentMemory::leak_check", "the machine's leak check does not return the memory model's verdict", o)
    n = 0
    for o in c.paths("Machine::eval_intrinsic", inline=["Machine::exit"], assume=["intrinsic is Exit"]):
        cs = o.calls("ConcurrentMemory::leak_check")
        if o.tag == "MachineStop":
            n += 1
            c.must(any(o.holds(isv(x[3], "Ok")) and x[2][0] is E_("self.mem") for x in cs), "stop-after-check", "Machine::exit", "the machine stops normally without a successful leak check", o)
        else:
            c.must(len(cs) == 1 and o.val.k == "adt" and is_adt(o.val, "Err") and adtf(o.val, "0") is vfield(cs[0][3], "Err", "0"), "exit-reports-leak", "Machine::exit",
                   "exit ends with something other than a normal stop or the leak report", o)
    c.floor("normal stop paths", n, 1, "Machine::exit")
    G = Graph(c.P)
    fs = [f for f in G.cons.get(("TerminationInfo", "MachineStop"), ()) if "erialize" not in f and "Clone" not in f]
    for f in fs:
        c.must(G.only_via(f, {"Machine::exit", "Machine::eval_intrinsic"}), "stop-raised-by:" + f, f, "a normal machine stop is raised outside the exit path (no leak check)")
    c.floor("places raising a normal stop", len(fs), 1)


def E_(s):
    from expr import E
    return E(s)
