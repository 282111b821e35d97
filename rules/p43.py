"""P43: a Rust type stands for the MiniRust type of the same shape."""
import mz, tool
from tool import book

META = dict(rule="Decision table: for every Rust type the builder converts (integers, bool, (), arrays, slices, references, raw pointers), the MiniRust type, with its size, signedness, mutability, metadata, "
                 "inhabitedness, freeze and unpin, on every path; the layout, size and alignment derived from it; no implementation overrides those derived methods.")
STEPS = ["Type::layout", "Type::meta_kind", "LayoutStrategy::expect_size", "LayoutStrategy::expect_align", "mu::from_frozen_layout"]
TEXT = [("get_layout(%s)" % t, "layout(get_type(%s))" % t) for t in ("T", "Self", "*const T")]      # what it is by default, and nothing overrides it
T = r"""
## <&T as mu::TypeConv>::get_type()
mu::TypeConv::FREEZE => Ptr(Ref{mutbl: Immutable, pointee: PointeeInfo{layout: layout(get_type(T)), inhabited: True, unsafe_cells: from_frozen_layout(layout(get_type(T))), freeze: mu::TypeConv::FREEZE, unpin: mu::TypeConv::UNPIN}})
## <&mut T as mu::TypeConv>::get_type()
always => Ptr(Ref{mutbl: Mutable, pointee: PointeeInfo{layout: layout(get_type(T)), inhabited: True, unsafe_cells: from_frozen_layout(layout(get_type(T))), freeze: mu::TypeConv::FREEZE, unpin: mu::TypeConv::UNPIN}})
## <() as mu::TypeConv>::get_type()
always => Tuple{sized_fields: [], sized_head_layout: TupleHeadLayout{end: 0, align: 1, packed_align: None}, unsized_field: None}
## <*const T as mu::TypeConv>::get_type()
always => Ptr(Raw{meta_kind: meta_kind(get_type(T))})
## <*mut T as mu::TypeConv>::get_type()
always => Ptr(Raw{meta_kind: meta_kind(get_type(T))})
## <[T; N] as mu::TypeConv>::get_type()
always => Array{elem: get_type(T), count: N}
## <[T] as mu::TypeConv>::get_type()
always => Slice{elem: get_type(T)}
## <bool as mu::TypeConv>::get_type()
always => Bool
## <i128 as mu::TypeConv>::get_type()
always => Int(IntType{signed: Signed, size: 16})
## <i16 as mu::TypeConv>::get_type()
always => Int(IntType{signed: Signed, size: 2})
## <i32 as mu::TypeConv>::get_type()
always => Int(IntType{signed: Signed, size: 4})
## <i64 as mu::TypeConv>::get_type()
always => Int(IntType{signed: Signed, size: 8})
## <i8 as mu::TypeConv>::get_type()
always => Int(IntType{signed: Signed, size: 1})
## <isize as mu::TypeConv>::get_type()
always => Int(IntType{signed: Signed, size: 8})
## <u128 as mu::TypeConv>::get_type()
always => Int(IntType{signed: Unsigned, size: 16})
## <u16 as mu::TypeConv>::get_type()
always => Int(IntType{signed: Unsigned, size: 2})
## <u32 as mu::TypeConv>::get_type()
always => Int(IntType{signed: Unsigned, size: 4})
## <u64 as mu::TypeConv>::get_type()
always => Int(IntType{signed: Unsigned, size: 8})
## <u8 as mu::TypeConv>::get_type()
always => Int(IntType{signed: Unsigned, size: 1})
## <usize as mu::TypeConv>::get_type()
always => Int(IntType{signed: Unsigned, size: 8})
## mu::ref_mut_ty_default_markers_for(ty)
always => Ptr(Ref{mutbl: Mutable, pointee: PointeeInfo{layout: layout(ty), inhabited: True, unsafe_cells: from_frozen_layout(layout(ty)), freeze: True, unpin: True}})
## mu::ref_ty_default_markers_for(ty)
always => Ptr(Ref{mutbl: Immutable, pointee: PointeeInfo{layout: layout(ty), inhabited: True, unsafe_cells: from_frozen_layout(layout(ty)), freeze: True, unpin: True}})
## mu::TypeConv::get_layout()
always => layout(get_type(Self))
## mu::TypeConv::get_size()
always => expect_size(layout(get_type(Self)), "Self is Sized")
## mu::TypeConv::get_align()
always => expect_align(layout(get_type(Self)), "Self is Sized")
## mu::global_ptr()
always => Global{bytes: repeat(Some(0), expect_size(layout(get_type(*const T)), "*T is `Sized`")), relocations: [], align: get_align(*const T)}
## mu::TypeConv::FREEZE()
always => True
## mu::TypeConv::UNPIN()
always => True
"""


def check(c):
    tool.TEXT += TEXT
    n = book(c, T, STEPS)
    P = c.prog(*tool.ALL)
    impls = sorted({f for f, _ in P.bodies if " as mu::TypeConv>::" in f and "{closure" not in f})
    over = [f for f in impls if not f.endswith("::get_type")]
    for f in over: c.violate("overridden:" + f, f, "this must not be overridden")
    c.floor("translated functions", n, 28)
    c.floor("implementations", len(impls), 18)
