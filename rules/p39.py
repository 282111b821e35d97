"""P39: constants and the globals they point to are translated exactly."""
import mz, tool
from tool import book

META = dict(rule="Decision table: for every type of constant, the expression built (with every sub-constant in order), and for every allocation the name it gets, the state in which its contents are translated, and the bytes, "
                 "initialization, relocations and alignment of the global that is registered, on every path, are compared with the table; constants the table does not list must be refused.")
# abbreviations of the table, applied in order
TEXT = [("unwrap(read_discriminant(ecx, val))","VARIANT"),("unwrap(project_downcast(ecx, val, VARIANT))","PAYLOAD"),("to_scalar(unwrap(discr(val.layout.ty, VARIANT)))","DISCR"),
("type(val.layout.ty)","TY"),("to_scalar_and_meta(unwrap(read_immediate(ecx, val)))","FAT"),("into_raw_parts(unwrap(to_pointer(FAT.0, ecx)))","FATPTR"),("into_raw_parts(unwrap(read_pointer(ecx, val)))","PTR"),("unwrap(read_scalar(ecx, val))","SCALAR"),
("mk_eval_cx_for_const_val(at(self.tcx, span), fully_monomorphized(), eval(c, self.tcx, fully_monomorphized(), r::DUMMY_SP)!, tyof(c))!","EVALUATED"),
("inspect_with_uninit_and_ptr_outside_interpreter(inner(allocation), Range{start: 0, end: bytes_usize(size(inner(allocation)))})","ALL"),
("{get(init_mask(inner(allocation)), from_bytes(pos(ALL, 0))): Some(each(ALL)); !(get(init_mask(inner(allocation)), from_bytes(pos(ALL, 0)))): None}","BYTE"),
("each(iter(ptrs(provenance(inner(allocation)))))","REL"),("iter(ptrs(provenance(inner(allocation))))","RELS"),
]
T = r"""
## mz::FnCtxt::translate_const(self, c, span)
always => constval(EVALUATED.1, EVALUATED.0)
## mz::FnCtxt::translate_const_smir(self, c, span)
always => translate_const(self, i(c), span)
## mz::FnCtxt::translate_const_val(self, val, ecx, span)
TY is Enum & TY.Enum.discriminant_ty.signed is Unsigned => Variant{discriminant: unwrap(to_uint(DISCR, size(DISCR))), data: Tuple([constval(unwrap(project_field(ecx, PAYLOAD, from_usize(each(Range{start: 0, end: count(PAYLOAD.layout.fields)})))), ecx) for Range{start: 0, end: count(PAYLOAD.layout.fields)}], get(TY.Enum.variants, unwrap(to_uint(DISCR, size(DISCR))))!.ty), enum_ty: TY}
TY is Enum & TY.Enum.discriminant_ty.signed is Signed => Variant{discriminant: unwrap(to_int(DISCR, size(DISCR))), data: Tuple([constval(unwrap(project_field(ecx, PAYLOAD, from_usize(each(Range{start: 0, end: count(PAYLOAD.layout.fields)})))), ecx) for Range{start: 0, end: count(PAYLOAD.layout.fields)}], get(TY.Enum.variants, unwrap(to_int(DISCR, size(DISCR))))!.ty), enum_ty: TY}
TY is Array => Tuple([constval(each(unwrap(project_array_fields(ecx, val))), ecx) for unwrap(project_array_fields(ecx, val))], TY)
TY is Tuple & not TY.Tuple.unsized_field is Some => Tuple([constval(unwrap(project_field(ecx, val, from_usize(pos(TY.Tuple.sized_fields, 0)))), ecx) for enum(TY.Tuple.sized_fields)], TY)
TY is Ptr & not TY.Ptr.0 is FnPtr & meta_kind(TY.Ptr.0) is ElementCount & FATPTR.0 is Some => BinOp{operator: ConstructWidePointer(TY.Ptr.0), left: Constant(GlobalPointer(Relocation{name: translate_alloc_id(self, alloc_id(FATPTR.0!)), offset: bytes(FATPTR.1)}), Ptr(Raw{meta_kind: None})), right: Constant(Int(unwrap(to_target_usize(unwrap_meta(FAT.1), ecx))), u64)}
TY is Ptr & not TY.Ptr.0 is FnPtr & meta_kind(TY.Ptr.0) is ElementCount & FATPTR.0 is None => BinOp{operator: ConstructWidePointer(TY.Ptr.0), left: Constant(PointerWithoutProvenance(bytes_usize(FATPTR.1)), Ptr(Raw{meta_kind: None})), right: Constant(Int(unwrap(to_target_usize(unwrap_meta(FAT.1), ecx))), u64)}
TY is Ptr & not TY.Ptr.0 is FnPtr & meta_kind(TY.Ptr.0) is None & PTR.0 is Some => Constant(GlobalPointer(Relocation{name: translate_alloc_id(self, alloc_id(PTR.0!)), offset: bytes(PTR.1)}), TY)
TY is Ptr & not TY.Ptr.0 is FnPtr & meta_kind(TY.Ptr.0) is None & PTR.0 is None => Constant(PointerWithoutProvenance(bytes_usize(PTR.1)), TY)
TY is Bool => Constant(Bool(unwrap(to_bool(SCALAR))), TY)
TY is Int & TY.Int.0.signed is Unsigned => Constant(Int(unwrap(to_uint(SCALAR, size(SCALAR)))), TY)
TY is Int & TY.Int.0.signed is Signed => Constant(Int(unwrap(to_int(SCALAR, size(SCALAR)))), TY)
## mz::FnCtxt::translate_alloc_id(self, alloc_id)
get(self.alloc_map, alloc_id) is None & global_alloc(self.tcx, alloc_id) is Memory => fresh_global_name(self) ; self{.alloc_map := minsert(self.alloc_map, alloc_id, fresh_global_name(self))} ; translate_const_allocation(self{.alloc_map := minsert(self.alloc_map, alloc_id, fresh_global_name(self))}, global_alloc(self.tcx, alloc_id).Memory.0, fresh_global_name(self))
get(self.alloc_map, alloc_id) is None & global_alloc(self.tcx, alloc_id) is Static => fresh_global_name(self) ; self{.alloc_map := minsert(self.alloc_map, alloc_id, fresh_global_name(self))} ; translate_const_allocation(self{.alloc_map := minsert(self.alloc_map, alloc_id, fresh_global_name(self))}, eval_static_initializer(self.tcx, global_alloc(self.tcx, alloc_id).Static.0)!, fresh_global_name(self))
get(self.alloc_map, alloc_id) is Some => self.alloc_map[alloc_id] ; nothing
## mz::FnCtxt::translate_const_allocation(self, allocation, name)
is_power_of_two(bytes(inner(allocation).align)) => () ; .globals := minsert(self.globals, name, Global{bytes: [BYTE for enum(ALL)], relocations: [(bytes(REL.0), Relocation{name: translate_alloc_id(self, alloc_id(REL.1)), offset: bytes(from_bytes(decode(LittleEndian, Unsigned, [each([BYTE for enum(ALL)][Range{start: bytes_usize(REL.0), end: (bytes_usize(REL.0) + 8)}])! for [BYTE for enum(ALL)][Range{start: bytes_usize(REL.0), end: (bytes_usize(REL.0) + 8)}]])))}) for RELS], align: bytes(inner(allocation).align)})
## mz::FnCtxt::fresh_global_name(self)
always => GlobalName(from_internal(len(self.globals))) ; .globals := minsert(self.globals, GlobalName(from_internal(len(self.globals))), Global{bytes: [], relocations: [], align: 1})
"""
NEW = [mz.F + "fresh_global_name", mz.F + "translate_const", mz.F + "translate_const_allocation"]


def registered(o):
    """the result, the state left behind and the translation of the contents that is started"""
    return mz.frag(o) + " ; " + tool.effects(mz.F + "translate_const_allocation", writes=False, result=False)(o)


def check(c):
    mz.setup()
    tool.TEXT += TEXT
    n = book(c, T, [x for x in mz.STEPS if not x.endswith("translate_relocation")] + NEW, shows=[("translate_alloc_id", registered)], show=mz.frag)
    c.floor("translated functions", n, 6)
