//@include copy.rs
//@include compare.rs
//@include values.rs
// nothing more is used of layout_of here
pub open spec fn layout_more(t: TyRef, r: Result<MemoryLayout, Ex>) -> bool { true }
// equal addresses mean one and the same object
#[verifier::external_body]
pub fn same_place(a: &Mem, i: usize, b: &Mem, j: usize) -> (r: bool) ensures r ==> a@ == b@ && i == j { unimplemented!() }
pub open spec fn same_type(a: TyRef, b: TyRef) -> bool { a.id == b.id }
pub uninterp spec fn castable(a: TyRef, b: TyRef) -> bool;
// Type::canCastTo (C18): types that can be cast differ in the size of compounds or the names of an enumeration only, so without
// the padding at the end their layouts cover the same bytes in the same way
#[verifier::external_body]
pub fn can_cast(a: TyRef, b: TyRef) -> (r: bool) ensures r == castable(a, b), r ==> lcells(b, true, false, false, true) == lcells(a, true, false, false, true) { unimplemented!() }
pub proof fn lemma_refl(c: Seq<Cell>, m: MV, o: int, d: int)
    ensures eqc(c, m, o, m, o, d)
    decreases c
{
    assert forall|j: int| 0 <= j < d && j < c.len() implies celleq(#[trigger] c[j], m, o + j, m, o + j) by {
        if c[j] is Cont { let e = c[j]->Cont_1; 
            assert forall|i: int| 0 <= i < m.c[o + j].e.len() implies eqc(e, #[trigger] m.c[o + j].e[i], 0, m.c[o + j].e[i], 0, e.len() as int) by { lemma_refl(e, m.c[o + j].e[i], 0, e.len() as int); } }
    }
}
// the layout that comparing uses: padding is not merged into data
pub open spec fn kc(t: TyRef) -> Option<Seq<Cell>> { lcells(t, true, false, false, true) }
//@fn Type_eq this=TyRef file=typelib/typemodel.cc class=Type name=operator==
//@spec
    ensures r == (this_ == with)
//@end
//@fn Type_ne this=TyRef file=typelib/typemodel.cc class=Type name=operator!=
//@spec
    ensures r == (this_ != with)
//@end
//@fn copy_o name=copy file=typelib/value_ops.cc types=void~\*,~void~\*,~const~(Typelib::)?MemoryLayout nparams=3 value=mut throws=yes
//@spec
    requires lok(ops), dst == 0, src == 0, old(mem_dst)@.b.len() <= OBJ_MAX, old(mem_src)@.b.len() <= OBJ_MAX, wf(lc(ops), old(mem_dst)@, 0), wf(lc(ops), old(mem_src)@, 0)
    ensures r is Ok, final(mem_src)@ == old(mem_src)@, cst(lc(ops), old(mem_dst)@, final(mem_dst)@, 0, old(mem_src)@, 0, lc(ops).len() as int)
//@at entry
    proof { lemma_refl(lc(ops), mem_dst@, 0, lc(ops).len() as int); }
//@end
//@fn copy_t name=copy file=typelib/value_ops.cc types=void~\*,~void~\*,~const~(Typelib::)?Type~ nparams=3 value=mut throws=yes
//@spec
    requires dst == 0, src == 0, old(mem_dst)@.b.len() <= OBJ_MAX, old(mem_src)@.b.len() <= OBJ_MAX, tc(type_) is Some ==> wf(tc(type_)->Some_0, old(mem_dst)@, 0) && wf(tc(type_)->Some_0, old(mem_src)@, 0)
    ensures final(mem_src)@ == old(mem_src)@, r is Ok <==> tc(type_) is Some, r is Err ==> final(mem_dst)@ == old(mem_dst)@,
        r is Ok ==> cst(tc(type_)->Some_0, old(mem_dst)@, final(mem_dst)@, 0, old(mem_src)@, 0, tc(type_)->Some_0.len() as int)
//@end
//@fn copy_v name=copy file=typelib/value_ops.cc types=Value,~(Typelib::)?Value nparams=2 value=mut throws=yes
//@spec
    requires dst.o == 0, src.o == 0, old(mem_dst)@.b.len() <= OBJ_MAX, old(mem_src)@.b.len() <= OBJ_MAX,
        tc(dst.t) is Some ==> wf(tc(dst.t)->Some_0, old(mem_dst)@, 0), tc(src.t) is Some ==> wf(tc(src.t)->Some_0, old(mem_src)@, 0)
    ensures final(mem_src)@ == old(mem_src)@, r is Ok <==> tc(src.t) is Some && dst.t == src.t, r is Err ==> final(mem_dst)@ == old(mem_dst)@,
        r is Ok ==> cst(tc(src.t)->Some_0, old(mem_dst)@, final(mem_dst)@, 0, old(mem_src)@, 0, tc(src.t)->Some_0.len() as int)
//@end
//@fn compare_t name=compare file=typelib/value_ops.cc types=void~\*,~void~\*,~const~(Typelib::)?Type~ nparams=3 value=mut throws=yes
//@spec
    requires dst == 0, src == 0, old(mem_dst)@.b.len() <= OBJ_MAX, old(mem_src)@.b.len() <= OBJ_MAX, kc(type_) is Some ==> wf(kc(type_)->Some_0, old(mem_dst)@, 0) && wf(kc(type_)->Some_0, old(mem_src)@, 0)
    ensures final(mem_src)@ == old(mem_src)@, final(mem_dst)@ == old(mem_dst)@, r is Ok <==> kc(type_) is Some,
        r is Ok ==> (r->Ok_0 <==> eqc(kc(type_)->Some_0, old(mem_dst)@, 0, old(mem_src)@, 0, kc(type_)->Some_0.len() as int))
//@end
//@fn compare_v name=compare file=typelib/value_ops.cc types=Value,~(Typelib::)?Value nparams=2 value=mut throws=yes
//@spec
    requires dst.o == 0, src.o == 0, old(mem_dst)@.b.len() <= OBJ_MAX, old(mem_src)@.b.len() <= OBJ_MAX,
        kc(dst.t) is Some ==> wf(kc(dst.t)->Some_0, old(mem_dst)@, 0), kc(src.t) is Some ==> wf(kc(src.t)->Some_0, old(mem_src)@, 0)
    ensures final(mem_src)@ == old(mem_src)@, final(mem_dst)@ == old(mem_dst)@, r is Ok <==> !castable(dst.t, src.t) || kc(dst.t) is Some,
        r is Ok ==> (r->Ok_0 <==> castable(dst.t, src.t) && eqc(kc(dst.t)->Some_0, old(mem_dst)@, 0, old(mem_src)@, 0, kc(dst.t)->Some_0.len() as int))
//@end
