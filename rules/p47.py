"""P47: minimize builds the standard library it analyses with itself as the compiler, for the requested target, from the right sources."""
import mz, tool
from tool import book

META = dict(rule="Decision table: where the sysroot goes, which sources it is built from and which are refused, the target, the features, the build mode and the environment of the build, on every path.")
TEXT = [('rustc_sysroot_src(new("rustc")).Ok.0', "SRC"), ('rustc_sysroot_src(new("rustc"))', "FOUND"), ("PtrMetadata", "len")]
T = r"""
## mz::get_sysroot_dir()
var_os("MINIRUST_SYSROOT") is Some => var_os("MINIRUST_SYSROOT").Some.0
var_os("MINIRUST_SYSROOT") is None => cache_dir(from("org", "rust-lang", "minirust").Some.0)
## mz::setup_sysroot()
FOUND is Ok & exists(SRC) & file_name(SRC) is None => show_error!("given Rust source directory `{display(SRC)}` does not seem to be the `library` subdirectory of a Rust source checkout.")
FOUND is Ok & exists(SRC) & file_name(SRC) is Some & to_str(file_name(SRC).Some.0) is Some & not to_str(file_name(SRC).Some.0).Some.0 is "library" => show_error!("given Rust source directory `{display(SRC)}` does not seem to be the `library` subdirectory of a Rust source checkout.")
FOUND is Ok & exists(SRC) & file_name(SRC) is Some & to_str(file_name(SRC).Some.0) is None => show_error!("given Rust source directory `{display(SRC)}` does not seem to be the `library` subdirectory of a Rust source checkout.")
file_name(SRC) is Some & to_str(file_name(SRC).Some.0) is Some & exists(SRC) & to_str(file_name(SRC).Some.0).Some.0 is "library" & forall windows(args(), 2): !(each(windows(args(), 2))[0] is "--target") => get_sysroot_dir() ; build_from_source(cargo(sysroot_config(build_mode(new(get_sysroot_dir(), version_meta().Ok.0.host), Check), WithStd{std_features: ["panic-unwind", "backtrace"]}), new("cargo")), SRC) ; env(new("cargo"), "MINIMIZE_BE_RUSTC", "1") ; env(new("cargo"), "MINIMIZE_BUILD_SYSROOT", "off") ; env(new("cargo"), "RUSTC", current_exe().Ok.0)
file_name(SRC) is Some & to_str(file_name(SRC).Some.0) is Some & exists(SRC) & to_str(file_name(SRC).Some.0).Some.0 is "library" & each(windows(args(), 2))[0] is "--target" => get_sysroot_dir() ; build_from_source(cargo(sysroot_config(build_mode(new(get_sysroot_dir(), each(windows(args(), 2))[1]), Check), WithStd{std_features: ["panic-unwind", "backtrace"]}), new("cargo")), SRC) ; env(new("cargo"), "MINIMIZE_BE_RUSTC", "1") ; env(new("cargo"), "MINIMIZE_BUILD_SYSROOT", "off") ; env(new("cargo"), "RUSTC", current_exe().Ok.0)
FOUND is Ok & not exists(SRC) => show_error!("`rust-src` not found")
"""


def check(c):
    tool.TEXT[:] = TEXT
    tool.HALTS |= {"show_error", "exit"}
    n = book(c, T, ["mz::get_sysroot_dir", "mu::cli::show_error"], shows=[("setup_sysroot", tool.effects("r::SysrootBuilder::build_from_source", "Command::env"))])
    c.floor("functions", n, 2)
