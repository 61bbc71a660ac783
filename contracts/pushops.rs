//@include prog.rs
//@fn pushGenericOp file=typelib/memory_layout.cc class=MemoryLayout params=op,element impl=impl~MemoryLayout
//@spec
    ensures final(self).ops@ == old(self).ops@ + seq![op, element], final(self).init_ops@ == old(self).init_ops@
//@at end
    proof { assert(self.ops@ =~= old(self).ops@ + seq![op_0, element_0]); }
//@end
//@fn pushEnd file=typelib/memory_layout.cc class=MemoryLayout params= impl=impl~MemoryLayout
//@spec
    ensures final(self).ops@ == old(self).ops@ + seq![FLAG_END], final(self).init_ops@ == old(self).init_ops@
//@at end
    proof { assert(self.ops@ =~= old(self).ops@ + seq![FLAG_END]); }
//@end
