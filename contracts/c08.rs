//@include skip.rs

//@fn validate file=typelib/memory_layout.cc class=MemoryLayout nparams=0 throws=yes impl=impl~MemoryLayout
//@locals indent:usize it:OpIt<'a> it:OpIt<'a>
//@spec
    ensures r is Ok <==> wf_ops(self.ops@, 0, 0) && wf_init(self.init_ops@, 0, 0)
//@loop 1
    invariant it.v == &self.ops, it.i <= self.ops@.len(), indent <= it.i,
        wf_ops(self.ops@, 0, 0) == wf_ops(self.ops@, it.i as int, indent as nat)
    decreases self.ops@.len() - it.i
//@loop 2
    invariant it.v == &self.init_ops, it.i <= self.init_ops@.len(), indent <= it.i,
        wf_ops(self.ops@, 0, 0),
        wf_init(self.init_ops@, 0, 0) == wf_init(self.init_ops@, it.i as int, indent as nat)
    decreases self.init_ops@.len() - it.i
//@end
