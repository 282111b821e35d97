"""P10: retagging and reborrowing: which permissions a retagged pointer gets, on which bytes, and what the retag does to the tree."""
import sp, tool

META = dict(rule="Decision table of the specification, one step at a time: for each case of one retag or reborrow, the result, what it leaves in every mutable argument, and the other steps it takes, in order; on every path.")
T = r"""
## <TreeBorrowsMemory as Memory>::retag_ptr(self, frame_extra, ptr, ptr_type, fn_entry, vtable_lookup)
new(ptr, ptr_type, fn_entry, vtable_lookup) is None => Ok(ptr)
new(ptr, ptr_type, fn_entry, vtable_lookup) is Some => Ok(Pointer{thin_pointer: reborrow.Ok.0, metadata: ptr.metadata}) ; frame_extra := reborrow'2 ; self := reborrow'1 ; reborrow(self, ptr.thin_pointer, new(ptr, ptr_type, fn_entry, vtable_lookup).Some.0, frame_extra)?
## TreeBorrowsMemory::reborrow(self, ptr, settings, frame_extra)
ptr.provenance is None & len(settings.inside) == 0 => Ok(ptr) ; check_ptr(self.mem, ptr, len(settings.inside))?
ptr.provenance is Some & (-1*self.mem.allocations[ptr.provenance.Some.0.0.0].addr + ptr.addr) >= 0 & not (len(settings.inside) + -1) >= 0 & not settings.protected is No => Ok(ThinPointer{addr: ptr.addr, provenance: Some((ptr.provenance.Some.0.0, add_node))}) ; frame_extra := frame_extra{.protectors := push(frame_extra.protectors, (ptr.provenance.Some.0.0, add_node))} ; self := self{.mem := self.mem{.allocations := self.mem.allocations{[ptr.provenance.Some.0.0.0] := self.mem.allocations[ptr.provenance.Some.0.0.0]{.extra := self.mem.allocations[ptr.provenance.Some.0.0.0].extra{.root := add_node'}}}}} ; add_node(self.mem.allocations[ptr.provenance.Some.0.0.0].extra.root, ptr.provenance.Some.0.1, Node{children: [], permissions: repeat(settings.outside, len(self.mem.allocations[ptr.provenance.Some.0.0.0].data)), protected: settings.protected}) ; check_ptr(self.mem, ptr, len(settings.inside))? ; for all repeat(settings.outside, len(self.mem.allocations[ptr.provenance.Some.0.0.0].data)): !(settings.protected is No) && settings.outside is Prot || settings.outside is Unprot && settings.protected is No ; for all settings.inside: none
ptr.provenance is Some & (-1*self.mem.allocations[ptr.provenance.Some.0.0.0].addr + ptr.addr) >= 0 & not (len(settings.inside) + -1) >= 0 & settings.protected is No => Ok(ThinPointer{addr: ptr.addr, provenance: Some((ptr.provenance.Some.0.0, add_node))}) ; self := self{.mem := self.mem{.allocations := self.mem.allocations{[ptr.provenance.Some.0.0.0] := self.mem.allocations[ptr.provenance.Some.0.0.0]{.extra := self.mem.allocations[ptr.provenance.Some.0.0.0].extra{.root := add_node'}}}}} ; add_node(self.mem.allocations[ptr.provenance.Some.0.0.0].extra.root, ptr.provenance.Some.0.1, Node{children: [], permissions: repeat(settings.outside, len(self.mem.allocations[ptr.provenance.Some.0.0.0].data)), protected: settings.protected}) ; check_ptr(self.mem, ptr, len(settings.inside))? ; for all repeat(settings.outside, len(self.mem.allocations[ptr.provenance.Some.0.0.0].data)): !(settings.protected is No) && settings.outside is Prot || settings.outside is Unprot && settings.protected is No ; for all settings.inside: none
ptr.provenance is Some & (-1*self.mem.allocations[ptr.provenance.Some.0.0.0].addr + ptr.addr) >= 0 & (len(settings.inside) + -1) >= 0 & not settings.protected is No => Ok(ThinPointer{addr: ptr.addr, provenance: Some((ptr.provenance.Some.0.0, add_node))}) ; frame_extra := frame_extra{.protectors := push(frame_extra.protectors, (ptr.provenance.Some.0.0, add_node))} ; self := self{.mem := self.mem{.allocations := loop}} ; add_node(self.mem.allocations[ptr.provenance.Some.0.0.0].extra.root, ptr.provenance.Some.0.1, Node{children: [], permissions: wsub(repeat(settings.outside, len(self.mem.allocations[ptr.provenance.Some.0.0.0].data)), (-1*self.mem.allocations[ptr.provenance.Some.0.0.0].addr + ptr.addr), settings.inside), protected: settings.protected}) ; loop = fold(enum(settings.inside), (self.mem.allocations{[ptr.provenance.Some.0.0.0] := self.mem.allocations[ptr.provenance.Some.0.0.0]{.extra := self.mem.allocations[ptr.provenance.Some.0.0.0].extra{.root := add_node'}}}), (pos(settings.inside, 0), each(settings.inside)), ({init_access(each(settings.inside)) is Some: acc0{[ptr.provenance.Some.0.0.0] := acc0[ptr.provenance.Some.0.0.0]{.extra := acc0[ptr.provenance.Some.0.0.0].extra{.root := after Node::access(acc0[ptr.provenance.Some.0.0.0].extra.root)}}}; !(init_access(each(settings.inside)) is Some): acc0})) ; check_ptr(self.mem, ptr, len(settings.inside))? ; for all wsub(repeat(settings.outside, len(self.mem.allocations[ptr.provenance.Some.0.0.0].data)), (-1*self.mem.allocations[ptr.provenance.Some.0.0.0].addr + ptr.addr), settings.inside): !(settings.protected is No) && each(wsub(repeat(settings.outside, len(self.mem.allocations[ptr.provenance.Some.0.0.0].data)), (-1*self.mem.allocations[ptr.provenance.Some.0.0.0].addr + ptr.addr), settings.inside)) is Prot || each(wsub(repeat(settings.outside, len(self.mem.allocations[ptr.provenance.Some.0.0.0].data)), (-1*self.mem.allocations[ptr.provenance.Some.0.0.0].addr + ptr.addr), settings.inside)) is Unprot && settings.protected is No ; for all settings.inside: !(!((-1*pos(settings.inside, 0) + len(settings.inside) + -1) >= 0)) && !(init_access(each(settings.inside)) is Some) || !(!((-1*pos(settings.inside, 0) + len(settings.inside) + -1) >= 0)) && access(~self.mem.allocations{[ptr.provenance.Some.0.0.0] := self.mem.allocations[ptr.provenance.Some.0.0.0]{.extra := self.mem.allocations[ptr.provenance.Some.0.0.0].extra{.root := add_node'}}}[ptr.provenance.Some.0.0.0].extra.root, Some(add_node), init_access(each(settings.inside)).Some.0, (-1*self.mem.allocations[ptr.provenance.Some.0.0.0].addr + pos(settings.inside, 0) + ptr.addr), 1) is Ok && init_access(each(settings.inside)) is Some
ptr.provenance is Some & (-1*self.mem.allocations[ptr.provenance.Some.0.0.0].addr + ptr.addr) >= 0 & (len(settings.inside) + -1) >= 0 & settings.protected is No => Ok(ThinPointer{addr: ptr.addr, provenance: Some((ptr.provenance.Some.0.0, add_node))}) ; self := self{.mem := self.mem{.allocations := loop}} ; add_node(self.mem.allocations[ptr.provenance.Some.0.0.0].extra.root, ptr.provenance.Some.0.1, Node{children: [], permissions: wsub(repeat(settings.outside, len(self.mem.allocations[ptr.provenance.Some.0.0.0].data)), (-1*self.mem.allocations[ptr.provenance.Some.0.0.0].addr + ptr.addr), settings.inside), protected: settings.protected}) ; loop = fold(enum(settings.inside), (self.mem.allocations{[ptr.provenance.Some.0.0.0] := self.mem.allocations[ptr.provenance.Some.0.0.0]{.extra := self.mem.allocations[ptr.provenance.Some.0.0.0].extra{.root := add_node'}}}), (pos(settings.inside, 0), each(settings.inside)), ({init_access(each(settings.inside)) is Some: acc0{[ptr.provenance.Some.0.0.0] := acc0[ptr.provenance.Some.0.0.0]{.extra := acc0[ptr.provenance.Some.0.0.0].extra{.root := after Node::access(acc0[ptr.provenance.Some.0.0.0].extra.root)}}}; !(init_access(each(settings.inside)) is Some): acc0})) ; check_ptr(self.mem, ptr, len(settings.inside))? ; for all wsub(repeat(settings.outside, len(self.mem.allocations[ptr.provenance.Some.0.0.0].data)), (-1*self.mem.allocations[ptr.provenance.Some.0.0.0].addr + ptr.addr), settings.inside): !(settings.protected is No) && each(wsub(repeat(settings.outside, len(self.mem.allocations[ptr.provenance.Some.0.0.0].data)), (-1*self.mem.allocations[ptr.provenance.Some.0.0.0].addr + ptr.addr), settings.inside)) is Prot || each(wsub(repeat(settings.outside, len(self.mem.allocations[ptr.provenance.Some.0.0.0].data)), (-1*self.mem.allocations[ptr.provenance.Some.0.0.0].addr + ptr.addr), settings.inside)) is Unprot && settings.protected is No ; for all settings.inside: !(!((-1*pos(settings.inside, 0) + len(settings.inside) + -1) >= 0)) && !(init_access(each(settings.inside)) is Some) || !(!((-1*pos(settings.inside, 0) + len(settings.inside) + -1) >= 0)) && access(~self.mem.allocations{[ptr.provenance.Some.0.0.0] := self.mem.allocations[ptr.provenance.Some.0.0.0]{.extra := self.mem.allocations[ptr.provenance.Some.0.0.0].extra{.root := add_node'}}}[ptr.provenance.Some.0.0.0].extra.root, Some(add_node), init_access(each(settings.inside)).Some.0, (-1*self.mem.allocations[ptr.provenance.Some.0.0.0].addr + pos(settings.inside, 0) + ptr.addr), 1) is Ok && init_access(each(settings.inside)) is Some
## ReborrowSettings::new(ptr, ptr_type, fn_entry, vtable_lookup)
safe_pointee(ptr_type) is None => None
safe_pointee(ptr_type) is Some & not ptr_type is Ref & fn_entry & not ptr_type is Box => Some(ReborrowSettings{inside: [Prot(Reserved{had_local_read: False, had_foreign_read: False}) for freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup)], outside: Prot(Reserved{had_local_read: False, had_foreign_read: False}), protected: Strong}) ; for all freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup): !(each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup))) || each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup))
safe_pointee(ptr_type) is Some & fn_entry & ptr_type is Box => Some(ReborrowSettings{inside: [Prot(Reserved{had_local_read: False, had_foreign_read: False}) for freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup)], outside: Prot(Reserved{had_local_read: False, had_foreign_read: False}), protected: Weak}) ; for all freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup): !(each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup))) || each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup))
safe_pointee(ptr_type) is Some & not ptr_type is Ref & not fn_entry & safe_pointee(ptr_type).Some.0.freeze => Some(ReborrowSettings{inside: [Unprot({each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup)): Reserved; !(each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup))): ReservedIm}) for freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup)], outside: Unprot(Reserved), protected: No}) ; for all freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup): !(each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup))) || each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup))
safe_pointee(ptr_type) is Some & not ptr_type is Ref & not fn_entry & not safe_pointee(ptr_type).Some.0.freeze => Some(ReborrowSettings{inside: [Unprot({each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup)): Reserved; !(each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup))): ReservedIm}) for freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup)], outside: Unprot(ReservedIm), protected: No}) ; for all freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup): !(each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup))) || each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup))
safe_pointee(ptr_type) is Some & ptr_type is Ref & ptr_type.Ref.mutbl is Immutable & fn_entry & safe_pointee(ptr_type).Some.0.freeze => Some(ReborrowSettings{inside: [Prot({each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup)): Frozen{had_local_read: False}; !(each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup))): Cell}) for freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup)], outside: Prot(Frozen{had_local_read: False}), protected: Strong}) ; for all freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup): !(each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup))) || each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup))
safe_pointee(ptr_type) is Some & ptr_type is Ref & ptr_type.Ref.mutbl is Immutable & fn_entry & not safe_pointee(ptr_type).Some.0.freeze => Some(ReborrowSettings{inside: [Prot({each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup)): Frozen{had_local_read: False}; !(each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup))): Cell}) for freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup)], outside: Prot(Cell), protected: Strong}) ; for all freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup): !(each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup))) || each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup))
safe_pointee(ptr_type) is Some & ptr_type is Ref & ptr_type.Ref.mutbl is Immutable & not fn_entry & safe_pointee(ptr_type).Some.0.freeze => Some(ReborrowSettings{inside: [Unprot({each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup)): Frozen; !(each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup))): Cell}) for freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup)], outside: Unprot(Frozen), protected: No}) ; for all freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup): !(each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup))) || each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup))
safe_pointee(ptr_type) is Some & ptr_type is Ref & ptr_type.Ref.mutbl is Immutable & not fn_entry & not safe_pointee(ptr_type).Some.0.freeze => Some(ReborrowSettings{inside: [Unprot({each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup)): Frozen; !(each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup))): Cell}) for freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup)], outside: Unprot(Cell), protected: No}) ; for all freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup): !(each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup))) || each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup))
safe_pointee(ptr_type) is Some & ptr_type is Ref & ptr_type.Ref.mutbl is Mutable & ptr_type.Ref.pointee.unpin & fn_entry => Some(ReborrowSettings{inside: [Prot(Reserved{had_local_read: False, had_foreign_read: False}) for freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup)], outside: Prot(Reserved{had_local_read: False, had_foreign_read: False}), protected: Strong}) ; for all freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup): !(each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup))) || each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup))
safe_pointee(ptr_type) is Some & ptr_type is Ref & ptr_type.Ref.mutbl is Mutable & ptr_type.Ref.pointee.unpin & not fn_entry & safe_pointee(ptr_type).Some.0.freeze => Some(ReborrowSettings{inside: [Unprot({each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup)): Reserved; !(each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup))): ReservedIm}) for freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup)], outside: Unprot(Reserved), protected: No}) ; for all freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup): !(each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup))) || each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup))
safe_pointee(ptr_type) is Some & ptr_type is Ref & ptr_type.Ref.mutbl is Mutable & ptr_type.Ref.pointee.unpin & not fn_entry & not safe_pointee(ptr_type).Some.0.freeze => Some(ReborrowSettings{inside: [Unprot({each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup)): Reserved; !(each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup))): ReservedIm}) for freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup)], outside: Unprot(ReservedIm), protected: No}) ; for all freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup): !(each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup))) || each(freeze_mask(safe_pointee(ptr_type).Some.0.unsafe_cells, safe_pointee(ptr_type).Some.0.layout, ptr.metadata, vtable_lookup))
safe_pointee(ptr_type) is Some & ptr_type is Ref & ptr_type.Ref.mutbl is Mutable & not ptr_type.Ref.pointee.unpin => None
## UnsafeCellStrategy::freeze_mask(self, layout, ptr_metadata, vtable_lookup)
self is Tuple & layout is Tuple => concat(cells_to_freeze_mask(self.Tuple.head_cells, layout.Tuple.head.end), freeze_mask(self.Tuple.tail_cells, layout.Tuple.tail, ptr_metadata, vtable_lookup))
self is TraitObject & layout is TraitObject & ptr_metadata.Some.0 is VTablePointer => cells_to_freeze_mask(apply:vtable_lookup(vtable_lookup, ptr_metadata.Some.0.VTablePointer.0).cells, apply:vtable_lookup(vtable_lookup, ptr_metadata.Some.0.VTablePointer.0).size)
self is Slice & layout is Slice & ptr_metadata.Some.0 is ElementCount => flat_map(Range{start: 0, end: ptr_metadata.Some.0.ElementCount.0}, cells_to_freeze_mask(self.Slice.element_cells, layout.Slice.0)) ; for all Range{start: 0, end: ptr_metadata.Some.0.ElementCount.0}: !(!((-1*each(Range{start: 0, end: ptr_metadata.Some.0.ElementCount.0}) + ptr_metadata.Some.0.ElementCount.0 + -1) >= 0)) && !(!(each(Range{start: 0, end: ptr_metadata.Some.0.ElementCount.0}) >= 0))
self is Sized & layout is Sized => cells_to_freeze_mask(self.Sized.cells, layout.Sized.0)
## cells_to_freeze_mask(cells, size)
len(loop) == size => loop ; loop = fold(zip(concat([(0, 0)], cells), concat(cells, [(size, 0)])), ([]), (each(concat([(0, 0)], cells)), each(concat(cells, [(size, 0)]))), (concat(concat(acc0, repeat(False, each(concat([(0, 0)], cells)).1)), repeat(True, (-1*each(concat([(0, 0)], cells)).0 + -1*each(concat([(0, 0)], cells)).1 + each(concat(cells, [(size, 0)])).0)))))
## <TreeBorrowsMemory as Memory>::allocate(self, kind, size, align)
always => allocate ; self := self{.mem := allocate'} ; allocate(self.mem, kind, size, align, [], TreeBorrowsAllocationExtra{root: Node{children: [], permissions: repeat(Unprot(Unique), size), protected: No}})
## <TreeBorrowsMemory as Memory>::new()
always => TreeBorrowsMemory{mem: new(T, libspecr::list::List<libspecr::int::Int>, mem::TreeBorrowsAllocationExtra)}
## <TreeBorrowsMemory as Memory>::dereferenceable(self, ptr, len)
always => Ok(()) ; check_ptr(self.mem, ptr, len)?
## Node::add_node(self, parent_path, child)
always => push(parent_path, access_node) ; self := access_node' ; access_node(self, parent_path, (|x0| len(x0.children)))
"""


def check(c):
    n = sp.book(c, T)
    c.floor("functions", n, 9)
    crashes(c)


def crashes(c):
    """a pointer that passed the dereferenceability check is retagged or refused: the interpreter gives up only where the settings contradict themselves"""
    fn = "TreeBorrowsMemory::reborrow"
    for o in c.paths(fn, opaque=[x for x in sp.STEPS if x != fn]):
        if o.tag != "panic": continue
        lits = tool.literals(o)
        inner = [l for l, v in lits.items() if l.startswith("settings.outside is ") or l.startswith("each(") or l == "ptr.provenance is None" and v]
        low = [l for l, v in lits.items() if not v and ".addr" in l and l.endswith(">= 0")]
        if inner: continue
        c.must(False, "reborrow/crash" + ("/zero-sized-below-allocation" if low else ""), fn, "retagging gives up (panics) on a pointer that passed the dereferenceability check", o)
