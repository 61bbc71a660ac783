//@include simplify.rs
//@include simplifyinit.rs
//@fn simplifyInit_top name=simplifyInit file=typelib/memory_layout.cc class=MemoryLayout nparams=0 throws=yes impl=impl~MemoryLayout
//@spec
    requires iprog(self.init_ops@)
    ensures r is Ok, isres(icl(self.init_ops@), r->Ok_0@, true)
//@at call:simplifyInit_ops#1.after
    proof { assert(rest(seq![], result.init_ops@) =~= result.init_ops@); assert(Seq::<usize>::empty() =~= seq![]); lemma_isres_void(icl(self.init_ops@), result.init_ops@); }
//@end
pub proof fn lemma_isres_void(c: Seq<ICell>, t: Seq<usize>)
    requires isres(c, t, true)
    ensures t.len() == 2 && t[0] == FLAG_INIT_SKIP ==> isres(c, seq![], true)
{
    if t.len() == 2 && t[0] == FLAG_INIT_SKIP {
        lemma_iprog_small(t); lemma_iprog_empty();
        assert forall|j: int| 0 <= j < c.len() implies #[trigger] c[j] is Keep by { if j < icl(t).len() { assert(c.take(icl(t).len() as int)[j] == c[j]); } }
        assert(c.take(0) =~= icl(seq![]));
    }
}
//@fn simplify_top name=simplify file=typelib/memory_layout.cc class=MemoryLayout params=merge_skip_copy,remove_trailing_skips throws=yes impl=impl~MemoryLayout
//@spec
    requires prog(self.ops@), iprog(self.init_ops@), self.ops@.len() <= u32::MAX
    ensures r is Ok, sres(cells(self.ops@), r->Ok_0.ops@, merge_skip_copy, remove_trailing_skips), isres(icl(self.init_ops@), r->Ok_0.init_ops@, true)
//@at call:simplify_ops#1.after
    proof { assert(rest(seq![], merged.ops@) =~= merged.ops@); assert(Seq::<usize>::empty() =~= seq![]); }
//@end
