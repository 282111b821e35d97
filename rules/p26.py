"""P26: exposed provenance and the concurrency wrapper."""
import sp, tool

META = dict(rule="Decision table of the specification, one step at a time: for each case of one operation, the result, what it leaves in every mutable argument, and the other steps it takes, in order; on every path.")
T = r"""
## IntPtrCast::new()
always => IntPtrCast{exposed: []}
## IntPtrCast::expose(self, ptr)
ptr.provenance is None => ()
ptr.provenance is Some => () ; self := self{.exposed := sinsert(self.exposed, ptr.provenance.Some.0)}
## IntPtrCast::int2ptr(self, addr)
predict() is Some & contains(self.exposed, predict().Some.0) => Ok(ThinPointer{addr: addr, provenance: predict()})
predict() is None => Ok(ThinPointer{addr: addr, provenance: predict()})
## ConcurrentMemory::new()
always => ConcurrentMemory{memory: new(M), accesses: []}
## ConcurrentMemory::allocate(self, kind, size, align)
always => allocate ; self := self{.memory := allocate'} ; allocate(self.memory, kind, size, align)
## ConcurrentMemory::deallocate(self, ptr, kind, size, align)
always => deallocate ; self := self{.memory := deallocate'} ; deallocate(self.memory, ptr, kind, size, align)
## ConcurrentMemory::dereferenceable(self, ptr, len)
always => dereferenceable(self.memory, ptr, len)
## ConcurrentMemory::signed_dereferenceable(self, ptr, len)
always => signed_dereferenceable(self.memory, ptr, len)
## ConcurrentMemory::retag_ptr(self, frame_extra, ptr, ptr_type, fn_entry, vtable_lookup)
always => retag_ptr ; frame_extra := retag_ptr'2 ; self := self{.memory := retag_ptr'1} ; retag_ptr(self.memory, frame_extra, ptr, ptr_type, fn_entry, vtable_lookup)
## ConcurrentMemory::end_call(self, extra)
always => end_call ; self := self{.memory := end_call'} ; end_call(self.memory, extra)
## ConcurrentMemory::deinit(self, ptr, len, align)
always => Ok(()) ; self := store' ; store(self, ptr, repeat(Uninit, len), align, None)?
## ConcurrentMemory::leak_check(self)
always => leak_check(self.memory)
## Memory::signed_dereferenceable(self, ptr, len)
(len + -1) >= 0 => dereferenceable(self, ptr, len)
not (len + -1) >= 0 => dereferenceable(self, ThinPointer{addr: (len + ptr.addr), provenance: ptr.provenance}, (-1*len))
## Memory::retag_ptr(self, _frame_extra, ptr, _ptr_type, _fn_entry, _vtable_lookup)
always => Ok(ptr)
## Memory::end_call(self, _extra)
always => Ok(())
## <BasicMemory as Memory>::new()
always => new(T, (), ())
## <BasicMemory as Memory>::new_call()
always => ()
"""


def check(c):
    n = sp.book(c, T)
    c.floor("functions", n, 17)
