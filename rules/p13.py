"""P13: the state a program starts in."""
import sp, tool

META = dict(rule="Decision table of the specification, one step at a time: for each case of setting up, the result, what it leaves in every mutable argument, and the other steps it takes, in order; on every path.")
T = r"""
## Machine::new(prog, stdout, stderr)
always => Ok(new_thread') ; loop = fold(prog.globals, (new(M)), each(prog.globals), (after ConcurrentMemory::allocate(acc0))) ; loop#2 = fold(prog.globals, (loop), each(prog.globals), (after ConcurrentMemory::store(acc0))) ; loop#3 = fold(prog.functions, (loop#2), each(prog.functions), (after ConcurrentMemory::allocate(acc0))) ; loop#4 = fold(prog.vtables, (loop#3), each(prog.vtables), (after ConcurrentMemory::allocate(acc0))) ; new_thread(Machine{prog: prog, mem: loop#4, intptrcast: new(<M as mem::Memory>::Provenance), threads: [], active_thread: 0, synchronized_threads: [], locks: [], global_ptrs: [(each(prog.globals).0, allocate(loop, Global, len(each(prog.globals).1.bytes), each(prog.globals).1.align).Ok.0) for prog.globals], fn_ptrs: [(each(prog.functions).0, allocate(loop#3, Function, 0, 1).Ok.0) for prog.functions], vtable_ptrs: [(each(prog.vtables).0, allocate(loop#4, VTable, 0, 1).Ok.0) for prog.vtables], stdout: stdout, stderr: stderr}, get(prog.functions, prog.start).Some.0, [])? ; check_wf(prog)? ; for all prog.globals: allocate(~new(M), Global, len(each(prog.globals).1.bytes), each(prog.globals).1.align) is Ok ; for all prog.globals: [forall each(prog.globals).1.bytes: !(each(each(prog.globals).1.bytes) is Some) || each(each(prog.globals).1.bytes) is Some] && store(loop, get([(each(prog.globals).0, allocate(loop, Global, len(each(prog.globals).1.bytes), each(prog.globals).1.align).Ok.0) for prog.globals], each(prog.globals).0).Some.0, fold(each(prog.globals).1.relocations, ([{each(each(prog.globals).1.bytes) is Some: Init(each(each(prog.globals).1.bytes).Some.0, None); each(each(prog.globals).1.bytes) is None: Uninit} for each(prog.globals).1.bytes]), each(each(prog.globals).1.relocations), (wsub(acc0, each(each(prog.globals).1.relocations).0, encode_ptr(wrapping_offset(get([(each(prog.globals).0, allocate(loop, Global, len(each(prog.globals).1.bytes), each(prog.globals).1.align).Ok.0) for prog.globals], each(each(prog.globals).1.relocations).1.name).Some.0, each(each(prog.globals).1.relocations).1.offset))))), each(prog.globals).1.align, None) is Ok ; for all prog.functions: allocate(~loop#2, Function, 0, 1) is Ok ; for all prog.vtables: allocate(~loop#3, VTable, 0, 1) is Ok
## Machine::new_thread(self, func, args)
always => Ok(len(create_frame'.threads)) ; self := create_frame'{.threads := push(create_frame'.threads, Thread{stack: [create_frame.Ok.0], state: Enabled, unwind_payloads: []})} ; create_frame(self, func, BottomOfStack, C, unit_type(), args)?
"""


def check(c):
    n = sp.book(c, T)
    c.floor("functions", n, 2)
