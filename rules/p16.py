"""P16: when a byte, pointer or value is less defined than another."""
import sp, tool

META = dict(rule="Decision table of the specification, one step at a time: for each case of one pair of values, the result, what it leaves in every mutable argument, and the other steps it takes, in order; on every path.")
T = r"""
## <AbstractByte as DefinedRelation>::le_defined(self, other)
self is Init & other is Uninit => False
self is Init & other is Init & self.Init.1 is Some & other.Init.1 is None => False
self is Init & other is Init & self.Init.1 is Some & other.Init.1 is Some & other.Init.0 == self.Init.0 & other.Init.1.Some.0 == self.Init.1.Some.0 => True
self is Init & other is Init & self.Init.1 is Some & other.Init.1 is Some & other.Init.0 == self.Init.0 & not other.Init.1.Some.0 == self.Init.1.Some.0 => False
self is Init & other is Init & self.Init.1 is Some & other.Init.1 is Some & not other.Init.0 == self.Init.0 => False
self is Init & other is Init & self.Init.1 is None & other.Init.0 == self.Init.0 => True
self is Init & other is Init & self.Init.1 is None & not other.Init.0 == self.Init.0 => False
self is Uninit => True
## <ThinPointer as DefinedRelation>::le_defined(self, other)
other.addr == self.addr & self.provenance is Some & other.provenance is None => False
other.addr == self.addr & self.provenance is Some & other.provenance is Some & other.provenance.Some.0 == self.provenance.Some.0 => True
other.addr == self.addr & self.provenance is Some & other.provenance is Some & not other.provenance.Some.0 == self.provenance.Some.0 => False
other.addr == self.addr & self.provenance is None => True
not other.addr == self.addr => False
## <PointerMeta as DefinedRelation>::le_defined(self, other)
self is ElementCount & other == self => True
self is ElementCount & not other == self => False
self is VTablePointer & other is ElementCount & other == self => True
self is VTablePointer & other is ElementCount & not other == self => False
self is VTablePointer & other is VTablePointer & not other.VTablePointer.0.addr == self.VTablePointer.0.addr => False
self is VTablePointer & other is VTablePointer & other.VTablePointer.0.addr == self.VTablePointer.0.addr & self.VTablePointer.0.provenance is None => True
self is VTablePointer & other is VTablePointer & other.VTablePointer.0.addr == self.VTablePointer.0.addr & self.VTablePointer.0.provenance is Some & other.VTablePointer.0.provenance is Some & other.VTablePointer.0.provenance.Some.0 == self.VTablePointer.0.provenance.Some.0 => True
self is VTablePointer & other is VTablePointer & other.VTablePointer.0.addr == self.VTablePointer.0.addr & self.VTablePointer.0.provenance is Some & other.VTablePointer.0.provenance is Some & not other.VTablePointer.0.provenance.Some.0 == self.VTablePointer.0.provenance.Some.0 => False
self is VTablePointer & other is VTablePointer & other.VTablePointer.0.addr == self.VTablePointer.0.addr & self.VTablePointer.0.provenance is Some & other.VTablePointer.0.provenance is None => False
## <Pointer as DefinedRelation>::le_defined(self, other)
not other.thin_pointer.addr == self.thin_pointer.addr => False
other.thin_pointer.addr == self.thin_pointer.addr & self.thin_pointer.provenance is None & self.metadata is None => True
other.thin_pointer.addr == self.thin_pointer.addr & self.thin_pointer.provenance is None & self.metadata is Some & other.metadata is Some => le_defined(self.metadata.Some.0, other.metadata.Some.0)
other.thin_pointer.addr == self.thin_pointer.addr & self.thin_pointer.provenance is None & self.metadata is Some & other.metadata is None => False
other.thin_pointer.addr == self.thin_pointer.addr & self.thin_pointer.provenance is Some & other.thin_pointer.provenance is Some & other.thin_pointer.provenance.Some.0 == self.thin_pointer.provenance.Some.0 & self.metadata is None => True
other.thin_pointer.addr == self.thin_pointer.addr & self.thin_pointer.provenance is Some & other.thin_pointer.provenance is Some & other.thin_pointer.provenance.Some.0 == self.thin_pointer.provenance.Some.0 & self.metadata is Some & other.metadata is Some => le_defined(self.metadata.Some.0, other.metadata.Some.0)
other.thin_pointer.addr == self.thin_pointer.addr & self.thin_pointer.provenance is Some & other.thin_pointer.provenance is Some & other.thin_pointer.provenance.Some.0 == self.thin_pointer.provenance.Some.0 & self.metadata is Some & other.metadata is None => False
other.thin_pointer.addr == self.thin_pointer.addr & self.thin_pointer.provenance is Some & other.thin_pointer.provenance is Some & not other.thin_pointer.provenance.Some.0 == self.thin_pointer.provenance.Some.0 => False
other.thin_pointer.addr == self.thin_pointer.addr & self.thin_pointer.provenance is Some & other.thin_pointer.provenance is None => False
## <List as DefinedRelation>::le_defined(self, other)
len(other) == len(self) & forall zip(self, other): le_defined(each(self), each(other)) => True ; for all zip(self, other): le_defined(each(self), each(other))
len(other) == len(self) & not le_defined(each(self), each(other)) => False
not len(other) == len(self) => False
## <Value as DefinedRelation>::le_defined(self, other)
self is Union & not other is Union => False
self is Union & other is Union & not len(other.Union.0) == len(self.Union.0) => False
self is Union & other is Union & len(other.Union.0) == len(self.Union.0) & not le_defined(each(self.Union.0), each(other.Union.0)) => False
self is Union & other is Union & len(other.Union.0) == len(self.Union.0) & forall zip(self.Union.0, other.Union.0): le_defined(each(self.Union.0), each(other.Union.0)) => True ; for all zip(self.Union.0, other.Union.0): le_defined(each(self.Union.0), each(other.Union.0))
self is Variant & not other is Variant => False
self is Variant & other is Variant & other.Variant.discriminant == self.Variant.discriminant => <Value as DefinedRelation>::le_defined(self.Variant.data, other.Variant.data)
self is Variant & other is Variant & not other.Variant.discriminant == self.Variant.discriminant => False
self is Tuple & not other is Tuple => False
self is Tuple & other is Tuple & not len(other.Tuple.0) == len(self.Tuple.0) => False
self is Tuple & other is Tuple & len(other.Tuple.0) == len(self.Tuple.0) & not le_defined(each(self.Tuple.0), each(other.Tuple.0)) => False
self is Tuple & other is Tuple & len(other.Tuple.0) == len(self.Tuple.0) & forall zip(self.Tuple.0, other.Tuple.0): le_defined(each(self.Tuple.0), each(other.Tuple.0)) => True ; for all zip(self.Tuple.0, other.Tuple.0): le_defined(each(self.Tuple.0), each(other.Tuple.0))
self is Ptr & not other is Ptr => False
self is Ptr & other is Ptr & other.Ptr.0.thin_pointer.addr == self.Ptr.0.thin_pointer.addr & self.Ptr.0.thin_pointer.provenance is Some & other.Ptr.0.thin_pointer.provenance is None => False
self is Ptr & other is Ptr & other.Ptr.0.thin_pointer.addr == self.Ptr.0.thin_pointer.addr & self.Ptr.0.thin_pointer.provenance is Some & other.Ptr.0.thin_pointer.provenance is Some & not other.Ptr.0.thin_pointer.provenance.Some.0 == self.Ptr.0.thin_pointer.provenance.Some.0 => False
self is Ptr & other is Ptr & other.Ptr.0.thin_pointer.addr == self.Ptr.0.thin_pointer.addr & self.Ptr.0.thin_pointer.provenance is Some & other.Ptr.0.thin_pointer.provenance is Some & other.Ptr.0.thin_pointer.provenance.Some.0 == self.Ptr.0.thin_pointer.provenance.Some.0 & self.Ptr.0.metadata is Some & other.Ptr.0.metadata is None => False
self is Ptr & other is Ptr & other.Ptr.0.thin_pointer.addr == self.Ptr.0.thin_pointer.addr & self.Ptr.0.thin_pointer.provenance is Some & other.Ptr.0.thin_pointer.provenance is Some & other.Ptr.0.thin_pointer.provenance.Some.0 == self.Ptr.0.thin_pointer.provenance.Some.0 & self.Ptr.0.metadata is Some & other.Ptr.0.metadata is Some => le_defined(self.Ptr.0.metadata.Some.0, other.Ptr.0.metadata.Some.0)
self is Ptr & other is Ptr & other.Ptr.0.thin_pointer.addr == self.Ptr.0.thin_pointer.addr & self.Ptr.0.thin_pointer.provenance is Some & other.Ptr.0.thin_pointer.provenance is Some & other.Ptr.0.thin_pointer.provenance.Some.0 == self.Ptr.0.thin_pointer.provenance.Some.0 & self.Ptr.0.metadata is None => True
self is Ptr & other is Ptr & other.Ptr.0.thin_pointer.addr == self.Ptr.0.thin_pointer.addr & self.Ptr.0.thin_pointer.provenance is None & self.Ptr.0.metadata is Some & other.Ptr.0.metadata is None => False
self is Ptr & other is Ptr & other.Ptr.0.thin_pointer.addr == self.Ptr.0.thin_pointer.addr & self.Ptr.0.thin_pointer.provenance is None & self.Ptr.0.metadata is Some & other.Ptr.0.metadata is Some => le_defined(self.Ptr.0.metadata.Some.0, other.Ptr.0.metadata.Some.0)
self is Ptr & other is Ptr & other.Ptr.0.thin_pointer.addr == self.Ptr.0.thin_pointer.addr & self.Ptr.0.thin_pointer.provenance is None & self.Ptr.0.metadata is None => True
self is Ptr & other is Ptr & not other.Ptr.0.thin_pointer.addr == self.Ptr.0.thin_pointer.addr => False
self is Bool & not other is Bool => False
self is Bool & other is Bool & other.Bool.0 == self.Bool.0 => True
self is Bool & other is Bool & not other.Bool.0 == self.Bool.0 => False
self is Int & not other is Int => False
self is Int & other is Int & other.Int.0 == self.Int.0 => True
self is Int & other is Int & not other.Int.0 == self.Int.0 => False
## <Option as DefinedRelation>::le_defined(self, other)
self is Some & other is None => False
self is Some & other is Some => le_defined(self.Some.0, other.Some.0)
self is None => True
"""


def check(c):
    n = sp.book(c, T)
    c.floor("functions", n, 7)
