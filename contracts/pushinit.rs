//@include iprog.rs
//@fn pushInitGenericOp file=typelib/memory_layout.cc class=MemoryLayout nparams=2 impl=impl~MemoryLayout
//@spec
    ensures final(self).init_ops@ == old(self).init_ops@ + seq![op, size], final(self).ops@ == old(self).ops@
//@at end
    proof { assert(self.init_ops@ =~= old(self).init_ops@ + seq![op_0, size_0]); }
//@end
//@fn pushInitSkip file=typelib/memory_layout.cc class=MemoryLayout nparams=1 impl=impl~MemoryLayout
//@spec
    ensures final(self).init_ops@ == old(self).init_ops@ + seq![FLAG_INIT_SKIP, size], final(self).ops@ == old(self).ops@
//@end
//@fn pushInitEnd file=typelib/memory_layout.cc class=MemoryLayout params= impl=impl~MemoryLayout
//@spec
    ensures final(self).init_ops@ == old(self).init_ops@ + seq![FLAG_INIT_END], final(self).ops@ == old(self).ops@
//@at end
    proof { assert(self.init_ops@ =~= old(self).init_ops@ + seq![FLAG_INIT_END]); }
//@end
//@fn pushInit file=typelib/memory_layout.cc class=MemoryLayout params=data impl=impl~MemoryLayout
//@spec
    ensures final(self).init_ops@ == old(self).init_ops@ + iop(data@), final(self).ops@ == old(self).ops@
//@at end
    proof { assert(data@.subrange(0, data@.len() as int) =~= data@); assert(self.init_ops@ =~= old(self).init_ops@ + iop(data@)); }
//@end
