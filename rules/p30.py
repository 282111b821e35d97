"""P30: miniutil's expression, statement, terminator and type constructors build exactly the operation they are named after."""
from terms import *
from tool import tables
from mu import U, UT

META = dict(rule="Decision table: for every constructor of miniutil::build and every case of its arguments, the value built on every path is compared (as a normalised term) with the node of the language it stands for.")
T = r"""
add(l, r) => BinOp{operator: Int(Add), left: l, right: r}
add_unchecked(l, r) => BinOp{operator: Int(AddUnchecked), left: l, right: r}
addr_of(target, ty) => AddrOf{target: target, ptr_ty: ty.Ptr.0}
array(args, elem_ty) => Tuple(args, Array{elem: elem_ty, count: len(args)})
bit_and(l, r) => BinOp{operator: Int(BitAnd), left: l, right: r}
bit_not(v) => UnOp{operator: Int(BitNot), operand: v}
bit_or(l, r) => BinOp{operator: Int(BitOr), left: l, right: r}
bit_xor(l, r) => BinOp{operator: Int(BitXor), left: l, right: r}
bool_and(l, r) => UnOp{operator: Cast(Transmute(Bool)), operand: BinOp{operator: Int(BitAnd), left: UnOp{operator: Cast(Transmute($u8)), operand: l}, right: UnOp{operator: Cast(Transmute($u8)), operand: r}}}
bool_or(l, r) => UnOp{operator: Cast(Transmute(Bool)), operand: BinOp{operator: Int(BitOr), left: UnOp{operator: Cast(Transmute($u8)), operand: l}, right: UnOp{operator: Cast(Transmute($u8)), operand: r}}}
bool_xor(l, r) => UnOp{operator: Cast(Transmute(Bool)), operand: BinOp{operator: Int(BitXor), left: UnOp{operator: Cast(Transmute($u8)), operand: l}, right: UnOp{operator: Cast(Transmute($u8)), operand: r}}}
by_value(val) => ByValue(val)
cmp(l, r) => BinOp{operator: Rel(Cmp), left: l, right: r}
compute_align(ty, v) => UnOp{operator: ComputeAlign(ty), operand: v}
compute_size(ty, v) => UnOp{operator: ComputeSize(ty), operand: v}
const_bool(b) => Constant(Bool(b), Bool)
const_int(int) => Constant(Int(int), get_type(T))
const_int_typed(int) => Constant(Int(int), get_type(T))
const_vtable(vtable_name, trait_name) => Constant(VTablePointer(vtable_name), Ptr(VTablePtr(trait_name)))
construct_wide_pointer(ptr, meta, ptr_ty) => BinOp{operator: ConstructWidePointer(ptr_ty.Ptr.0), left: ptr, right: meta}
count_ones(v) => UnOp{operator: Int(CountOnes), operand: v}
deref(operand, ty) => Deref{operand: operand, ty: ty}
div(l, r) => BinOp{operator: Int(Div), left: l, right: r}
div_exact(l, r) => BinOp{operator: Int(DivExact), left: l, right: r}
downcast(root, discriminant) => Downcast{root: root, discriminant: discriminant}
eq(l, r) => BinOp{operator: Rel(Eq), left: l, right: r}
field(root, field) => Field{root: root, field: field}
ge(l, r) => BinOp{operator: Rel(Ge), left: l, right: r}
get_discriminant(place) => GetDiscriminant{place: place}
get_metadata(v) => UnOp{operator: GetMetadata, operand: v}
get_thin_pointer(v) => UnOp{operator: GetThinPointer, operand: v}
global(x) => Deref{operand: Constant(GlobalPointer(Relocation{name: GlobalName(from_internal(x)), offset: 0}), Ptr(Raw{meta_kind: None})), ty: get_type(T)}
global_by_name(name) => Deref{operand: Constant(GlobalPointer(Relocation{name: name, offset: 0}), Ptr(Raw{meta_kind: None})), ty: get_type(T)}
gt(l, r) => BinOp{operator: Rel(Gt), left: l, right: r}
in_place(arg) => InPlace(arg)
index(root, index) => Index{root: root, index: index}
int_cast(v) => UnOp{operator: Cast(IntToInt(get_type(T).Int.0)), operand: v}
le(l, r) => BinOp{operator: Rel(Le), left: l, right: r}
load(p) => Load{source: p}
local(x) => Local(LocalName(from_internal(x)))
local_by_name(name) => Local(name)
lt(l, r) => BinOp{operator: Rel(Lt), left: l, right: r}
mul(l, r) => BinOp{operator: Int(Mul), left: l, right: r}
mul_unchecked(l, r) => BinOp{operator: Int(MulUnchecked), left: l, right: r}
ne(l, r) => BinOp{operator: Rel(Ne), left: l, right: r}
neg(v) => UnOp{operator: Int(Neg), operand: v}
not(v) => UnOp{operator: Cast(Transmute(Bool)), operand: BinOp{operator: Int(Sub), left: Constant(Int(1), $u8), right: UnOp{operator: Cast(Transmute($u8)), operand: v}}}
null() => Constant(PointerWithoutProvenance(0), Ptr(Raw{meta_kind: None}))
overflow_add(l, r) => BinOp{operator: IntWithOverflow(Add), left: l, right: r}
overflow_mul(l, r) => BinOp{operator: IntWithOverflow(Mul), left: l, right: r}
overflow_sub(l, r) => BinOp{operator: IntWithOverflow(Sub), left: l, right: r}
ptr_addr(v) => UnOp{operator: Cast(Transmute(Int(IntType{signed: Unsigned, size: 8}))), operand: v}
ptr_offset(l, r, inbounds) | inbounds is No => BinOp{operator: PtrOffset{inbounds: False}, left: l, right: r}
ptr_offset(l, r, inbounds) | inbounds is Yes => BinOp{operator: PtrOffset{inbounds: True}, left: l, right: r}
ptr_offset_from(l, r, inbounds) | inbounds is No => BinOp{operator: PtrOffsetFrom{inbounds: False, nonneg: False}, left: l, right: r}
ptr_offset_from(l, r, inbounds) | inbounds is Yes => BinOp{operator: PtrOffsetFrom{inbounds: True, nonneg: False}, left: l, right: r}
ptr_offset_from_nonneg(l, r, inbounds) | inbounds is No => BinOp{operator: PtrOffsetFrom{inbounds: False, nonneg: True}, left: l, right: r}
ptr_offset_from_nonneg(l, r, inbounds) | inbounds is Yes => BinOp{operator: PtrOffsetFrom{inbounds: True, nonneg: True}, left: l, right: r}
ptr_to_ptr(v, t) => UnOp{operator: Cast(Transmute(t)), operand: v}
rem(l, r) => BinOp{operator: Int(Rem), left: l, right: r}
shl(l, r) => BinOp{operator: Int(Shl), left: l, right: r}
shl_unchecked(l, r) => BinOp{operator: Int(ShlUnchecked), left: l, right: r}
shr(l, r) => BinOp{operator: Int(Shr), left: l, right: r}
shr_unchecked(l, r) => BinOp{operator: Int(ShrUnchecked), left: l, right: r}
sub(l, r) => BinOp{operator: Int(Sub), left: l, right: r}
sub_unchecked(l, r) => BinOp{operator: Int(SubUnchecked), left: l, right: r}
transmute(v, t) => UnOp{operator: Cast(Transmute(t)), operand: v}
tuple(args, ty) => Tuple(args, ty)
unit() => Tuple([], $unit)
unit_ptr() => Constant(PointerWithoutProvenance(1), Ptr(Raw{meta_kind: None}))
variant(discriminant, data, enum_ty) => Variant{discriminant: discriminant, data: data, enum_ty: enum_ty}
vtable_method_lookup(operand, method) => UnOp{operator: VTableMethodLookup(method), operand: operand}
abort() => Intrinsic{intrinsic: Abort, arguments: [], ret: $U, next_block: None}
allocate(size, align, ret_place, next) => Intrinsic{intrinsic: Allocate, arguments: [size, align], ret: ret_place, next_block: Some(BbName(from_internal(next)))}
assume(val, next) => Intrinsic{intrinsic: Assume, arguments: [val], ret: $U, next_block: Some(BbName(from_internal(next)))}
atomic_fetch(binop, dest, ptr, other, next) | binop is Sub => Intrinsic{intrinsic: AtomicFetchAndOp(Sub), arguments: [ptr, other], ret: dest, next_block: Some(BbName(from_internal(next)))}
atomic_fetch(binop, dest, ptr, other, next) | binop is Add => Intrinsic{intrinsic: AtomicFetchAndOp(Add), arguments: [ptr, other], ret: dest, next_block: Some(BbName(from_internal(next)))}
atomic_load(dest, ptr, next) => Intrinsic{intrinsic: AtomicLoad, arguments: [ptr], ret: dest, next_block: Some(BbName(from_internal(next)))}
atomic_store(ptr, src, next) => Intrinsic{intrinsic: AtomicStore, arguments: [ptr, src], ret: $U, next_block: Some(BbName(from_internal(next)))}
call(f, args, ret, next) | next is None => Call{callee: Constant(FnPointer(FnName(from_internal(f))), Ptr(FnPtr)), calling_convention: C, arguments: args, ret: ret, next_block: None, unwind_block: None}
call(f, args, ret, next) | next is Some => Call{callee: Constant(FnPointer(FnName(from_internal(f))), Ptr(FnPtr)), calling_convention: C, arguments: args, ret: ret, next_block: Some(BbName(from_internal(next.Some.0))), unwind_block: None}
compare_exchange(dest, ptr, current, next_val, next) => Intrinsic{intrinsic: AtomicCompareExchange, arguments: [ptr, current, next_val], ret: dest, next_block: Some(BbName(from_internal(next)))}
deallocate(ptr, size, align, next) => Intrinsic{intrinsic: Deallocate, arguments: [ptr, size, align], ret: $U, next_block: Some(BbName(from_internal(next)))}
eprint(arg, next) => Intrinsic{intrinsic: PrintStderr, arguments: [arg], ret: $U, next_block: Some(BbName(from_internal(next)))}
exit() => Intrinsic{intrinsic: Exit, arguments: [], ret: $U, next_block: None}
expose_provenance(dest, ptr, next) => Intrinsic{intrinsic: PointerExposeProvenance, arguments: [ptr], ret: dest, next_block: Some(BbName(from_internal(next)))}
get_unwind_payload(ret, next) => Intrinsic{intrinsic: GetUnwindPayload, arguments: [], ret: ret, next_block: Some(BbName(from_internal(next)))}
goto(x) => Goto(BbName(from_internal(x)))
if_(condition, then_blk, else_blk) => Switch{value: UnOp{operator: Cast(Transmute($u8)), operand: condition}, cases: [(1, BbName(from_internal(then_blk)))], fallback: BbName(from_internal(else_blk))}
join(thread_id, next) => Intrinsic{intrinsic: Join, arguments: [thread_id], ret: $U, next_block: Some(BbName(from_internal(next)))}
lock_acquire(lock_id, next) => Intrinsic{intrinsic: Lock(Acquire), arguments: [lock_id], ret: $U, next_block: Some(BbName(from_internal(next)))}
lock_create(ret, next) => Intrinsic{intrinsic: Lock(Create), arguments: [], ret: ret, next_block: Some(BbName(from_internal(next)))}
lock_release(lock_id, next) => Intrinsic{intrinsic: Lock(Release), arguments: [lock_id], ret: $U, next_block: Some(BbName(from_internal(next)))}
print(arg, next) => Intrinsic{intrinsic: PrintStdout, arguments: [arg], ret: $U, next_block: Some(BbName(from_internal(next)))}
raw_eq(ret, left_ptr, right_ptr, next) => Intrinsic{intrinsic: RawEq, arguments: [left_ptr, right_ptr], ret: ret, next_block: Some(BbName(from_internal(next)))}
resume_unwind() => ResumeUnwind
return_() => Return
spawn(fn_ptr, data_ptr, ret, next) => Intrinsic{intrinsic: Spawn, arguments: [fn_ptr, data_ptr], ret: ret, next_block: Some(BbName(from_internal(next)))}
start_unwind(unwind_payload, cleanup) => StartUnwind{unwind_payload: unwind_payload, unwind_block: cleanup}
stop_unwind(next_block) => StopUnwind(next_block)
switch_int(value, cases, fallback) => Switch{value: value, cases: [(each(cases).0, BbName(from_internal(each(cases).1))) for cases], fallback: BbName(from_internal(fallback))}
unreachable() => Unreachable
with_exposed_provenance(dest, addr, next) => Intrinsic{intrinsic: PointerWithExposedProvenance, arguments: [addr], ret: dest, next_block: Some(BbName(from_internal(next)))}
assign(destination, source) => Assign{destination: destination, source: source}
place_mention(place) => PlaceMention(place)
set_discriminant(destination, value) => SetDiscriminant{destination: destination, value: value}
storage_dead(x) => StorageDead(LocalName(from_internal(x)))
storage_live(x) => StorageLive(LocalName(from_internal(x)))
validate(place, fn_entry) => Validate{place: place, fn_entry: fn_entry}
array_ty(elem, count) => Array{elem: elem, count: count}
bool_ty() => Bool
box_ty(pointee) => Ptr(Box{pointee: pointee})
discriminator_branch(offset, fallback, children) => Branch{offset: offset, value_type: get_type(T).Int.0, fallback: fallback, children: children}
discriminator_invalid() => Invalid
discriminator_known(discriminant) => Known(discriminant)
enum_ty(variants, discriminator, size, align) => Enum{variants: variants, discriminant_ty: get_type(DiscriminantTy).Int.0, discriminator: discriminator, size: size, align: align}
enum_variant(ty, tagger) => Variant{ty: ty, tagger: tagger}
int_ty(signed, size) => Int(IntType{signed: signed, size: size})
raw_ptr_ty(meta_kind) => Ptr(Raw{meta_kind: meta_kind})
raw_void_ptr_ty() => Ptr(Raw{meta_kind: None})
ref_mut_ty(pointee) => Ptr(Ref{mutbl: Mutable, pointee: pointee})
ref_ty(pointee) => Ptr(Ref{mutbl: Immutable, pointee: pointee})
slice_ty(elem) => Slice{elem: elem}
trait_object_ty(trait_name) => TraitObject(trait_name)
tuple_ty(f, size, align) => Tuple{sized_fields: f, sized_head_layout: TupleHeadLayout{end: size, align: align, packed_align: None}, unsized_field: None}
union_ty(f, size, align) => Union{fields: f, chunks: [(0, size)], size: size, align: align}
unsized_tuple_ty(fs, unsized_ty, end, align, packed_align) => Tuple{sized_fields: fs, sized_head_layout: TupleHeadLayout{end: end, align: align, packed_align: packed_align}, unsized_field: Some(unsized_ty)}
global_int() => Global{bytes: repeat(Some(0), get_size(T)), relocations: [], align: get_align(T)}
block(statements, terminator, kind) => BasicBlock{statements: statements, terminator: terminator, kind: kind}
fn_ptr(name) => Constant(FnPointer(name), Ptr(FnPtr))
fn_ptr_internal(fn_name) => Constant(FnPointer(FnName(from_internal(fn_name))), Ptr(FnPtr))
bool_to_int(v) | GT is Int and GT.Int._0.signed is Unsigned and GT.Int._0.size == 1 => UnOp{operator: Cast(Transmute($u8)), operand: v}
bool_to_int(v) | GT is Int and GT.Int._0.size != 1 => UnOp{operator: Cast(IntToInt(get_type(T).Int.0)), operand: UnOp{operator: Cast(Transmute($u8)), operand: v}}
bool_to_int(v) | GT is Int and GT.Int._0.signed is Signed => UnOp{operator: Cast(IntToInt(get_type(T).Int.0)), operand: UnOp{operator: Cast(Transmute($u8)), operand: v}}
bool_to_int(v) | GT is Bool => !
int_cast(v) | GT is Bool => !
tuple(args, ty) | ty is Array => !
tuple(args, ty) | ty is Tuple and len(args) != len(ty.Tuple.sized_fields) => !
ptr_to_ptr(v, t) | t is Int => !
addr_of(target, ty) | ty is Int => !
construct_wide_pointer(ptr, meta, ptr_ty) | ptr_ty is Int => !
from_frozen_layout(layout) | layout is Tuple => Tuple{head_cells: [], tail_cells: from_frozen_layout(layout.Tuple.tail)}
from_frozen_layout(layout) | layout is TraitObject => TraitObject
from_frozen_layout(layout) | layout is Slice => Slice{element_cells: []}
from_frozen_layout(layout) | layout is Sized => Sized{cells: []}
"""


def check(c):
    gt = mk("call", "mu::TypeConv::get_type", (sym("T"),))
    n = tables(c, T, env={"GT": gt}, prefix="mu::", macros={"$U": U, "$unit": UT, "$u8": "Int(IntType{signed: Unsigned, size: 1})"})
    c.floor("constructors", n, 120)
