"""P45: a run steps the machine until it stops, collecting garbage after every step; output and programs pass through unchanged."""
import mz, tool
from tool import book

META = dict(rule="Decision table: what a run starts from, what one iteration does in which order, what ends it and the result it then has; which writers a run gets and what becomes of what was written; "
                 "how a program is written to and read from JSON; on every path.")
TEXT = [("run(prog, MockWrite{buffer: default Rc}, stderr(), M, mock_write::MockWrite, Stderr)", "CAUGHT"), ("run(prog, stdout(), stderr(), M, Stdout, Stderr)", "RUN")]
T = r"""
## mu::run::run_program(prog)
RUN is Err => RUN.Err.0
## mu::run::get_stdout(prog)
CAUGHT is Err & not CAUGHT.Err.0 is MachineStop => Err(CAUGHT.Err.0)
CAUGHT is Err & CAUGHT.Err.0 is MachineStop => Ok(lines(from_utf8(borrow(default Rc)).Ok.0))
## mu::run::run(prog, stdout, stderr)
new(prog, new(stdout), new(stderr)) is Err => Err(new(prog, new(stdout), new(stderr)).Err.0)
new(prog, new(stdout), new(stderr)) is Ok & step(~new(prog, new(stdout), new(stderr)).Ok.0) is Err => Err(step(W).Err.0) ; W from new(prog, new(stdout), new(stderr)).Ok.0 ; each time step(W); mark_and_sweep(after Machine::step(W)); W := after Machine::step(W) if step(W) is Ok ; until step(W) is Err
## <mu::mock_write::MockWrite as Write>::write(self, buf)
always => Ok(len(buf)) ; extend_from_slice(borrow_mut(self.buffer), buf)
## <mu::mock_write::MockWrite as Write>::flush(self)
always => Ok(())
## mu::mock_write::MockWrite::into_strings(self)
always => lines(from_utf8(borrow(self.buffer)).Ok.0)
## mu::mock_write::MockWrite::new()
always => MockWrite{buffer: default Rc}
## <mu::mock_write::MockWrite as Clone>::clone(self)
always => MockWrite{buffer: self.buffer}
## mu::json::load_program(r)
always => from_reader(r).Ok.0
## mu::json::assert_roundtrip(prog)
from_slice(to_vec(prog).Ok.0).Ok.0 == prog => ()
## mu::json::dump_program(prog)
always => to_writer(stdout(), prog).Ok.0
"""
ITERATION = ("Machine::step", "libspecr::hidden::mark_and_sweep", "mark_and_sweep", "hidden::mark_and_sweep", "minirust_rs::libspecr::hidden::mark_and_sweep")


def check(c):
    P = c.prog(*tool.ALL)
    tool.TEXT += TEXT
    tool.GENERIC |= {"run"}      # the writers' types tell what becomes of the output
    machine = sorted({n for n, _ in P.bodies if n.startswith("Machine::")})
    n = book(c, T, machine + ["mu::run::run"], shows=[("mu::run::run", tool.whiles(None, ITERATION)), ("<mu::mock_write::MockWrite as Write>::write", tool.effects("Vec::extend_from_slice", order=True)),
                                                      ("<mu::mock_write::MockWrite as Write>::flush", tool.effects("Vec::extend_from_slice", order=True))])
    c.floor("functions of the run loop, the captured output and the JSON form", n, 11)
