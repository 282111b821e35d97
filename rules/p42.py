"""P42: minimize and minirun obey their options, and report how the program ended."""
import mz, tool
from tool import book

META = dict(rule="Decision table: for every function of the command line (which options are accepted and what each selects, which steps run in which order, what each way the program can end prints and the exit code), the result, the steps taken and the "
                 "process exit on every path are compared with the table.")
PRE = 'strip_prefix(each(%s), "--%s-")'
TEXT = [
    ('insert_all(args(), 1, ["--cfg=miri", "-Zalways-encode-mir", "-Zextra-const-ub-checks", "-Zmir-emit-retag", "-Zmir-opt-level=0", "-Zmir-enable-passes=-CheckAlignment", "-Zmir-preserve-ub", "-Zub-checks=false"])', "ALLARGS"),
    ('insert_all(ALLARGS, 1, ["--sysroot={display(setup_sysroot())}"])', "WITHSYSROOT"),
    (PRE % ("args", "minimize"), "MINIMIZE"), (PRE % ("args", "minirust"), "MINIRUST"), (PRE % ("skip(args(), 1)", "minirust"), "MINIRUST"), ('strip_prefix(MINIMIZE.Some.0, "dump=")', "DUMP"),
    ('filter_map(skip(args(), 1), {MINIRUST is None: Some(each(skip(args(), 1))); MINIRUST is Some && MINIRUST.Some.0 is "tree-borrows": None})', "OTHERS"),
    ("fold(skip(args(), 1), (False), each(skip(args(), 1)), ({MINIRUST is Some: True; !(MINIRUST is Some): acc0}))", "ANYTB"),
    ("filter_map(skip(args(), 1), {MINIRUST is Some: None; !(MINIRUST is Some): Some(each(skip(args(), 1)))})", "OTHERS"), ("PtrMetadata", "len")]
RUN = [("parse_args(WITHSYSROOT)", "parse_args(_)"), ("parse_args(ALLARGS)", "parse_args(_)"), ("parse_args(_).0", "CFG")]
K = "mu::cli::MinirustMachineConfig::"
STEPS = ["mu::cli::show_error", K + "run_prog", K + "run_prog_and_print_errors", "mu::json::load_program", "mu::json::dump_program", "mu::json::assert_roundtrip", "mu::run::run_program",
         "mu::pretty::dump_program", "mz::be_rustc", "mz::setup_sysroot", "mz::parse_args", "mz::Ctxt::new", "mz::Ctxt::translate"]
# options, running, reporting
T = r"""
## mu::cli::show_error(msg)
always => exit!(101) ; _eprint("fatal error: {msg}\n")
## mu::cli::MinirustMachineConfig::run_prog(self, prog)
self.tree_borrows => run_program(prog, TreeBorrowsMemory<x86_64>)
not self.tree_borrows => run_program(prog, BasicMemory<x86_64>)
## mu::cli::MinirustMachineConfig::run_prog_and_print_errors(self, prog)
run_prog(self, prog) is MemoryLeak => show_error!("program leaked memory")
run_prog(self, prog) is Deadlock => show_error!("program dead-locked")
run_prog(self, prog) is IllFormed => show_error!("program not well-formed (this is a bug in minimize):\n    {get_internal(run_prog(self, prog).IllFormed.0)}")
run_prog(self, prog) is Abort => show_error!("program aborted")
run_prog(self, prog) is MachineStop => ()
run_prog(self, prog) is Ub => show_error!("UB: {get_internal(run_prog(self, prog).Ub.0)}")
## minirun::main()
MINIRUST is Some & not MINIRUST.Some.0 is "tree-borrows" => show_error!("Unknown argument --minirust-{MINIRUST.Some.0}!")
len(OTHERS) == 0 & forall skip(args(), 1): !(MINIRUST is Some) || MINIRUST is Some && MINIRUST.Some.0 is "tree-borrows" => () ; load_program(stdin()) ; run_prog_and_print_errors(MinirustMachineConfig{tree_borrows: ANYTB}, load_program(stdin()))
not len(OTHERS) == 0 & (len(OTHERS) + -1) == 0 & forall skip(args(), 1): !(MINIRUST is Some) || MINIRUST is Some && MINIRUST.Some.0 is "tree-borrows" => () ; load_program(open(OTHERS[0]).Ok.0) ; run_prog_and_print_errors(MinirustMachineConfig{tree_borrows: ANYTB}, load_program(open(OTHERS[0]).Ok.0))
not len(OTHERS) == 0 & not (len(OTHERS) + -1) == 0 & (len(OTHERS) + -2) >= 0 & forall skip(args(), 1): !(MINIRUST is Some) || MINIRUST is Some && MINIRUST.Some.0 is "tree-borrows" => show_error!("Can not load JSON from more than one file!")
## mz::parse_args(args)
MINIMIZE is None & MINIRUST is Some & not MINIRUST.Some.0 is "tree-borrows" => show_error!("Unknown argument --minirust-{MINIRUST.Some.0}!")
forall args: !(MINIMIZE is Some) && !(MINIRUST is Some) || !(MINIMIZE is Some) && MINIRUST is Some && MINIRUST.Some.0 is "tree-borrows" || !(~None is Some) && DUMP is Some && MINIMIZE is Some || MINIMIZE is Some && MINIMIZE.Some.0 is "check-json-roundtrip" => (MinimizeConfig{dump: fold(args, (None), each(args), ({MINIMIZE is Some && DUMP is Some: Some(DUMP.Some.0); MINIMIZE is Some && !(DUMP is Some): acc0; !(MINIMIZE is Some): acc0})), check_json_roundtrip: fold(args, (False), each(args), ({MINIMIZE is Some && DUMP is Some: acc0; MINIMIZE is Some && !(DUMP is Some): True; !(MINIMIZE is Some): acc0})), machine_config: MinirustMachineConfig{tree_borrows: fold(args, (False), each(args), ({MINIMIZE is Some: acc0; !(MINIMIZE is Some) && MINIRUST is Some: True; !(MINIMIZE is Some) && !(MINIRUST is Some): acc0}))}}, filter_map(args, {MINIMIZE is Some: None; !(MINIMIZE is Some) && MINIRUST is Some: None; !(MINIMIZE is Some) && !(MINIRUST is Some): Some(each(args))}))
MINIMIZE is Some & DUMP is Some & ~None is Some => show_error!("Argument --minimize-dump was given twice!")
MINIMIZE is Some & DUMP is None & not MINIMIZE.Some.0 is "check-json-roundtrip" => show_error!("Unknown minimize argument --minimize-{MINIMIZE.Some.0}!")
## mz::be_rustc(args)
ExitCode::SUCCESS == catch_with_exit_code(run_compiler(args)) & forall windows(args, 2): !(each(windows(args, 2))[0] is "--crate-name") || !(each(windows(args, 2))[1] is "panic_abort") && each(windows(args, 2))[0] is "--crate-name" => exit!(0) ; run_compiler(args)
not ExitCode::SUCCESS == catch_with_exit_code(run_compiler(args)) & forall windows(args, 2): !(each(windows(args, 2))[0] is "--crate-name") || !(each(windows(args, 2))[1] is "panic_abort") && each(windows(args, 2))[0] is "--crate-name" => exit!(1) ; run_compiler(args)
each(windows(args, 2))[0] is "--crate-name" & each(windows(args, 2))[1] is "panic_abort" & ExitCode::SUCCESS == catch_with_exit_code(run_compiler(insert_all(args, 1, ["-Cpanic=abort"]))) => exit!(0) ; run_compiler(insert_all(args, 1, ["-Cpanic=abort"]))
each(windows(args, 2))[0] is "--crate-name" & each(windows(args, 2))[1] is "panic_abort" & not ExitCode::SUCCESS == catch_with_exit_code(run_compiler(insert_all(args, 1, ["-Cpanic=abort"]))) => exit!(1) ; run_compiler(insert_all(args, 1, ["-Cpanic=abort"]))
"""
# minimize up to the start of the compiler: the sysroot and the arguments
BEFORE = r"""
## mz::main()
var("MINIMIZE_BUILD_SYSROOT").Ok.0 is "only" => setup_sysroot()
var("MINIMIZE_BUILD_SYSROOT").Ok.0 is "off" & var_os("MINIMIZE_BE_RUSTC") is Some => be_rustc(ALLARGS)
var("MINIMIZE_BUILD_SYSROOT").Ok.0 is "off" & var_os("MINIMIZE_BE_RUSTC") is None => parse_args(ALLARGS) ; run_compiler(parse_args(ALLARGS).1)
not var("MINIMIZE_BUILD_SYSROOT").Ok.0 is "only" & not var("MINIMIZE_BUILD_SYSROOT").Ok.0 is "off" & var_os("MINIMIZE_BE_RUSTC") is Some & forall ALLARGS: !(each(ALLARGS) is "-vV") && !(starts_with(each(ALLARGS), "--print=")) => setup_sysroot() ; be_rustc(WITHSYSROOT)
not var("MINIMIZE_BUILD_SYSROOT").Ok.0 is "only" & not var("MINIMIZE_BUILD_SYSROOT").Ok.0 is "off" & var_os("MINIMIZE_BE_RUSTC") is None & forall ALLARGS: !(each(ALLARGS) is "-vV") && !(starts_with(each(ALLARGS), "--print=")) => setup_sysroot() ; parse_args(WITHSYSROOT) ; run_compiler(parse_args(WITHSYSROOT).1)
not var("MINIMIZE_BUILD_SYSROOT").Ok.0 is "only" & not var("MINIMIZE_BUILD_SYSROOT").Ok.0 is "off" & not each(ALLARGS) is "-vV" & starts_with(each(ALLARGS), "--print=") & var_os("MINIMIZE_BE_RUSTC") is Some => be_rustc(ALLARGS)
not var("MINIMIZE_BUILD_SYSROOT").Ok.0 is "only" & not var("MINIMIZE_BUILD_SYSROOT").Ok.0 is "off" & not each(ALLARGS) is "-vV" & starts_with(each(ALLARGS), "--print=") & var_os("MINIMIZE_BE_RUSTC") is None => parse_args(ALLARGS) ; run_compiler(parse_args(ALLARGS).1)
not var("MINIMIZE_BUILD_SYSROOT").Ok.0 is "only" & not var("MINIMIZE_BUILD_SYSROOT").Ok.0 is "off" & each(ALLARGS) is "-vV" & var_os("MINIMIZE_BE_RUSTC") is Some => be_rustc(ALLARGS)
not var("MINIMIZE_BUILD_SYSROOT").Ok.0 is "only" & not var("MINIMIZE_BUILD_SYSROOT").Ok.0 is "off" & each(ALLARGS) is "-vV" & var_os("MINIMIZE_BE_RUSTC") is None => parse_args(ALLARGS) ; run_compiler(parse_args(ALLARGS).1)
var("MINIMIZE_BUILD_SYSROOT") is Err & var_os("MINIMIZE_BE_RUSTC") is Some & forall ALLARGS: !(each(ALLARGS) is "-vV") && !(starts_with(each(ALLARGS), "--print=")) => setup_sysroot() ; be_rustc(WITHSYSROOT)
var("MINIMIZE_BUILD_SYSROOT") is Err & var_os("MINIMIZE_BE_RUSTC") is None & forall ALLARGS: !(each(ALLARGS) is "-vV") && !(starts_with(each(ALLARGS), "--print=")) => setup_sysroot() ; parse_args(WITHSYSROOT) ; run_compiler(parse_args(WITHSYSROOT).1)
var("MINIMIZE_BUILD_SYSROOT") is Err & not each(ALLARGS) is "-vV" & starts_with(each(ALLARGS), "--print=") & var_os("MINIMIZE_BE_RUSTC") is Some => be_rustc(ALLARGS)
var("MINIMIZE_BUILD_SYSROOT") is Err & not each(ALLARGS) is "-vV" & starts_with(each(ALLARGS), "--print=") & var_os("MINIMIZE_BE_RUSTC") is None => parse_args(ALLARGS) ; run_compiler(parse_args(ALLARGS).1)
var("MINIMIZE_BUILD_SYSROOT") is Err & each(ALLARGS) is "-vV" & var_os("MINIMIZE_BE_RUSTC") is Some => be_rustc(ALLARGS)
var("MINIMIZE_BUILD_SYSROOT") is Err & each(ALLARGS) is "-vV" & var_os("MINIMIZE_BE_RUSTC") is None => parse_args(ALLARGS) ; run_compiler(parse_args(ALLARGS).1)
"""
# minimize inside the compiler: dump, check or run the translated program
AFTER = r"""
## mz::main()
CFG.dump is Some & not CFG.dump.Some.0 is "pretty" & not CFG.dump.Some.0 is "json" => show_error!("Unknown dump format {CFG.dump.Some.0}")
CFG.dump is Some & CFG.dump.Some.0 is "json" => () ; json::dump_program(translate(new(tcx))) ; compilation(Stop)
CFG.dump is Some & CFG.dump.Some.0 is "pretty" => () ; pretty::dump_program(translate(new(tcx))) ; compilation(Stop)
CFG.dump is None & not CFG.check_json_roundtrip => () ; run_prog_and_print_errors(CFG.machine_config, translate(new(tcx))) ; compilation(Stop)
CFG.dump is None & CFG.check_json_roundtrip => () ; assert_roundtrip(translate(new(tcx))) ; run_prog_and_print_errors(CFG.machine_config, translate(new(tcx))) ; compilation(Stop)
"""


def check(c):
    tool.TEXT[:] = TEXT
    tool.HALTS |= {"show_error", "exit"}
    tool.GENERIC |= {"run_program"}
    E = tool.effects
    n = book(c, T, STEPS, shows=[("mu::cli::show_error", E("_eprint", "std::io::_eprint", order=True)), ("minirun::main", E(*STEPS, order=True)), ("mz::be_rustc", E("r::run_compiler", order=True))])
    tool.HALTS.discard("show_error")
    n += book(c, BEFORE, STEPS, show=E("r::run_compiler", "mz::be_rustc", "mz::setup_sysroot", "mz::parse_args", result=False, order=True))
    tool.HALTS.add("show_error")
    tool.TEXT += RUN
    n += book(c, AFTER, STEPS, show=E(K + "run_prog_and_print_errors", "mu::json::dump_program", "mu::pretty::dump_program", "mu::json::assert_roundtrip", "r::compilation", order=True),
              accepts=[("mz::main", lambda o, got: not o.calls("r::run_compiler"))])
    c.floor("command line functions", n, 8)
