"""P11: protectors: how they are taken, released and what their release does to the tree."""
import sp, tool

META = dict(rule="Decision table of the specification, one step at a time: for each case of one release of a protector, the result, what it leaves in every mutable argument, and the other steps it takes, in order; on every path.")
T = r"""
## <TreeBorrowsMemory as Memory>::end_call(self, extra)
always => Ok(()) ; self := loop ; loop = fold(extra.protectors, (self), each(extra.protectors), (after TreeBorrowsMemory::release_protector(acc0))) ; for all extra.protectors: release_protector(self, each(extra.protectors)) is Ok
## TreeBorrowsMemory::release_protector(self, provenance)
not self.mem.allocations[provenance.0.0].live => Ok(()) ; self := self{.mem := self.mem{.allocations := self.mem.allocations{[provenance.0.0] := self.mem.allocations[provenance.0.0]{.extra := self.mem.allocations[provenance.0.0].extra{.root := access_node'}}}}} ; access_node(self.mem.allocations[provenance.0.0].extra.root, provenance.1, (|x0| [unprotect(each(x0.permissions).Prot.0).1 for x0.permissions]))
self.mem.allocations[provenance.0.0].live => release_protector ; self := self{.mem := self.mem{.allocations := self.mem.allocations{[provenance.0.0] := self.mem.allocations[provenance.0.0]{.extra := self.mem.allocations[provenance.0.0].extra{.root := release_protector'}}}}} ; access_node(self.mem.allocations[provenance.0.0].extra.root, provenance.1, (|x0| [unprotect(each(x0.permissions).Prot.0).1 for x0.permissions])) ; release_protector(access_node', Some(provenance.1), access_node)
## Node::release_protector(self, path, accesses)
path is Some & len(path.Some.0) == 0 => Ok(()) ; self := self{.protected := No}
path is Some & not len(path.Some.0) == 0 => Ok(()) ; self := self{.children := [after Node::release_protector(each(self.children)) for enum(self.children)]}{.permissions := ~self.permissions} ; for all accesses: !(!((-1*pos(accesses, 0) + len(accesses) + -1) >= 0)) && !(each(accesses) is Some) || !(!((-1*pos(accesses, 0) + len(accesses) + -1) >= 0)) && each(accesses) is Some && transition(~self.permissions[pos(accesses, 0)], each(accesses).Some.0, Local) is Ok ; for all self.children: !(!((-1*each(Range{start: 0, end: len(self.children)}) + len(self.children) + -1) >= 0)) && !(!(each(Range{start: 0, end: len(self.children)}) >= 0)) && !(each(Range{start: 0, end: len(self.children)}) == split_first(path.Some.0).Some.0.0) && release_protector(~self.children[each(Range{start: 0, end: len(self.children)})], None, accesses) is Ok && split_first(path.Some.0) is Some || !(!((-1*each(Range{start: 0, end: len(self.children)}) + len(self.children) + -1) >= 0)) && !(!(each(Range{start: 0, end: len(self.children)}) >= 0)) && !(split_first(path.Some.0) is Some) && release_protector(~self.children[each(Range{start: 0, end: len(self.children)})], None, accesses) is Ok || !(!((-1*each(Range{start: 0, end: len(self.children)}) + len(self.children) + -1) >= 0)) && !(!(each(Range{start: 0, end: len(self.children)}) >= 0)) && each(Range{start: 0, end: len(self.children)}) == split_first(path.Some.0).Some.0.0 && release_protector(~self.children[each(Range{start: 0, end: len(self.children)})], Some(split_first(path.Some.0).Some.0.1), accesses) is Ok && split_first(path.Some.0) is Some
path is None => Ok(()) ; self := self{.children := [after Node::release_protector(each(self.children)) for enum(self.children)]}{.permissions := ~self.permissions} ; for all accesses: !(!((-1*pos(accesses, 0) + len(accesses) + -1) >= 0)) && !(each(accesses) is Some) || !(!((-1*pos(accesses, 0) + len(accesses) + -1) >= 0)) && each(accesses) is Some && transition(~self.permissions[pos(accesses, 0)], each(accesses).Some.0, Foreign) is Ok ; for all self.children: !(!((-1*each(Range{start: 0, end: len(self.children)}) + len(self.children) + -1) >= 0)) && !(!(each(Range{start: 0, end: len(self.children)}) >= 0)) && release_protector(~self.children[each(Range{start: 0, end: len(self.children)})], None, accesses) is Ok
## Node::access_node(self, path, f)
split_first(path) is None => apply:f ; self := apply:f' ; apply:f(f, self)
split_first(path) is Some & not len(self.children) == 0 => access_node ; self := self{.children := self.children{[split_first(path).Some.0.0] := access_node'}} ; access_node(self.children[split_first(path).Some.0.0], split_first(path).Some.0.1, f)
## Node::is_leaf(self)
len(self.children) == 0 => True
not len(self.children) == 0 => False
## Permission::matches_protector(self, protected)
not protected is No & self is Unprot => False
not protected is No & self is Prot => True
protected is No & self is Prot => False
protected is No & self is Unprot => True
## Protected::yes(self)
not self is No => True
self is No => False
## TreeBorrowsFrameExtra::new()
always => TreeBorrowsFrameExtra{protectors: []}
## <TreeBorrowsMemory as Memory>::new_call()
always => new()
"""


def check(c):
    n = sp.book(c, T)
    c.floor("functions", n, 9)
