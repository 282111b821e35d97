"""P46: minimize only starts where rustc's target and MiniRust's agree, from empty tables, and asks rustc about the very type at hand."""
import mz, tool
from tool import book

META = dict(rule="Decision table: the conditions on the target (pointer size and alignment, byte order, alignment of every integer size) without which a translation does not start, the tables it starts from, "
                 "and how rustc is asked for the layout, the typing environment and the data layout, on every path.")
TEXT = [("<r::TyCtxt as r::HasDataLayout>::data_layout(tcx)", "DL"), ("<r::TyCtxt as r::HasDataLayout>::", "")]
HERE = ["mz::Ctxt::rs_layout_of", "mz::Ctxt::rs_layout_of_smir", "mz::Ctxt::typing_env"]
T = r"""
## mz::Ctxt::new(tcx)
(translate_size(pointer_size(DL)) + -8) == 0 & (translate_align(pointer_align(DL).abi) + -8) == 0 & DL.endian is Little & align(IntType{signed: Unsigned, size: translate_size(size(I8))}) == translate_align(align(I8, DL).abi) & align(IntType{signed: Unsigned, size: translate_size(size(I16))}) == translate_align(align(I16, DL).abi) & align(IntType{signed: Unsigned, size: translate_size(size(I32))}) == translate_align(align(I32, DL).abi) & align(IntType{signed: Unsigned, size: translate_size(size(I64))}) == translate_align(align(I64, DL).abi) & align(IntType{signed: Unsigned, size: translate_size(size(I128))}) == translate_align(align(I128, DL).abi) => Ctxt{tcx: tcx, fn_name_map: default HashMap, trait_map: default HashMap, traits: [], vtable_map: default HashMap, vtables: [], alloc_map: default HashMap, globals: [], functions: [], ty_cache: default HashMap}
## mz::Ctxt::rs_layout_of(self, ty)
always => layout_of(self.tcx, as_query_input(fully_monomorphized(), ty))!
## mz::Ctxt::rs_layout_of_smir(self, ty)
always => layout_of(self.tcx, as_query_input(fully_monomorphized(), i(ty)))!
## mz::Ctxt::pointee_info_of_smir(self, ty, span)
always => pointee(i(ty))
## mz::Ctxt::translate_ty_smir(self, ty, span)
always => type(i(ty))
## mz::Ctxt::typing_env(self)
always => fully_monomorphized()
## <mz::Ctxt as r::HasDataLayout>::data_layout(self)
always => data_layout(self.tcx)
## <mz::Ctxt as r::HasTyCtxt>::tcx(self)
always => self.tcx
## <mz::Ctxt as r::HasTypingEnv>::typing_env(self)
always => fully_monomorphized()
## <mz::Ctxt as r::LayoutOfHelpers>::handle_layout_err(self, err, span, ty)
always => span_bug_fmt!(span, "layout error: {new_debug(err)}")
## <mz::Ctxt as r::FnAbiOfHelpers>::handle_fn_abi_err(self, err, span, req)
always => span_bug_fmt!(span, "function abi error: {new_debug(err)}")
"""


def check(c):
    mz.setup()
    tool.TEXT += TEXT
    tool.HALTS |= {"span_bug_fmt", "bug_fmt"}
    n = book(c, T, [x for x in mz.STEPS if x not in HERE] + ["IntType::align", "mz::translate_size", "mz::translate_align", "mz::Ctxt::translate"])
    c.floor("functions", n, 11)
