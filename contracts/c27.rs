//@include tree.rs
//@include strs.rs
// A value is an address and a type. FieldGetter, its ValueVisitor part and the TypeDispatch it owns are one object: they are passed
// as their members (m_stack belongs to the dispatcher, m_name and m_field to the getter).
pub struct VRef { pub p: usize, pub t: TyRef }
impl Copy for VRef {}
impl Clone for VRef { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
#[verifier::external_body]
pub fn arbitrary_vref() -> VRef { unimplemented!() }
#[verifier::external_body]
pub fn arbitrary_vec_usize() -> Vec<usize> { unimplemented!() }
#[verifier::external_body]
pub fn arbitrary_vec_u8() -> Vec<u8> { unimplemented!() }
pub uninterp spec fn nulltype() -> TyRef;
impl VRef { #[verifier::external_body] pub fn none() -> (r: VRef) ensures r.p == 0, r.t == nulltype() { unimplemented!() } }
#[verifier::external_body]
pub fn as_container(t: TyRef) -> (r: TyRef) requires tcat(t) == Container ensures r == t { unimplemented!() }
// the first field of that name
pub open spec fn fat(t: TyRef, name: Seq<u8>, j: int) -> bool { 0 <= j < tfields(t).len() && tfields(t)[j].m_name@ == name && !hasf(t, name, j) }
pub open spec fn hasf(t: TyRef, name: Seq<u8>, n: int) -> bool { exists|k: int| 0 <= k < n && k < tfields(t).len() && #[trigger] tfields(t)[k].m_name@ == name }
pub open spec fn isf(v: VRef, t: TyRef, name: Seq<u8>, base: int) -> bool { exists|j: int| #[trigger] fat(t, name, j) && v.p == base + tfields(t)[j].m_offset && v.t == tfields(t)[j].m_type }
// a value somewhere in memory
pub open spec fn vok(v: VRef) -> bool { v.p != 0 && v.p + tsize(v.t) <= usize::MAX && (tcat(v.t) == Compound ==> wft(v.t)) }
// what the parts of the object guarantee to each other: from a stack with the address of a compound on top and no field found yet
pub open spec fn fpre(st: Seq<usize>, f: VRef, t: TyRef) -> bool { st.len() > 0 && st.last() != 0 && st.last() + tsize(t) <= usize::MAX && tcat(t) == Compound && wft(t) && f.p == 0 }
pub open spec fn fpost(st0: Seq<usize>, st: Seq<usize>, n0: Seq<u8>, n: Seq<u8>, f: VRef, t: TyRef, r: Result<bool, Ex>) -> bool {
    r is Ok && st == st0 && n == n0 && (if r->Ok_0 { f.p == 0 && !hasf(t, n, tfields(t).len() as int) } else { f.p != 0 && isf(f, t, n, st.last() as int) })
}
//@fn td_nulltype name=visit_ types=^const~NullType file=typelib/typevisitor.cc class=TypeVisitor flat=m_stack:&mut~Vec<usize>,m_name:&mut~Vec<u8>,m_field:&mut~VRef link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:FieldGetter|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor assumed=never~reached:~the~precondition~is~false
//@spec
    requires false
//@end
//@fn td_numeric name=visit_ types=^const~Numeric file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,m_name:&mut~Vec<u8>,m_field:&mut~VRef link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:FieldGetter|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor assumed=never~reached:~the~precondition~is~false
//@spec
    requires false
//@end
//@fn td_enum name=visit_ types=^const~Enum file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,m_name:&mut~Vec<u8>,m_field:&mut~VRef link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:FieldGetter|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor assumed=never~reached:~the~precondition~is~false
//@spec
    requires false
//@end
//@fn td_array name=visit_ types=^const~Array file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,m_name:&mut~Vec<u8>,m_field:&mut~VRef link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:FieldGetter|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor assumed=never~reached:~the~precondition~is~false
//@spec
    requires false
//@end
//@fn td_pointer name=visit_ types=^const~Pointer file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,m_name:&mut~Vec<u8>,m_field:&mut~VRef link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:FieldGetter|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor assumed=never~reached:~the~precondition~is~false
//@spec
    requires false
//@end
//@fn td_opaquetype name=visit_ types=^const~OpaqueType file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,m_name:&mut~Vec<u8>,m_field:&mut~VRef link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:FieldGetter|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor assumed=never~reached:~the~precondition~is~false
//@spec
    requires false
//@end
//@fn td_container name=visit_ types=^const~Container file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,m_name:&mut~Vec<u8>,m_field:&mut~VRef link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:FieldGetter|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor assumed=never~reached:~the~precondition~is~false
//@spec
    requires false
//@end
//@fn fg_visit_field name=visit_ nparams=3 types=const~Field file=typelib/value.cc class=FieldGetter params=value,_compound,field flat=m_stack:&mut~Vec<usize>,m_name:&mut~Vec<u8>,m_field:&mut~VRef link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:FieldGetter|ValueVisitor vals=addr throws=yes dyn=FieldGetter,ValueVisitor
//@spec
    requires value.p != 0, old(m_field).p == 0
    ensures r is Ok, final(m_stack)@ == old(m_stack)@, final(m_name)@ == old(m_name)@,
        r->Ok_0 == (field.m_name@ != final(m_name)@), *final(m_field) == (if r->Ok_0 { *old(m_field) } else { value })
//@end
//@fn td_visit_field name=visit_ nparams=2 types=const~Compound.*const~Field file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,m_name:&mut~Vec<u8>,m_field:&mut~VRef link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:FieldGetter|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor
//@spec
    requires old(m_stack)@.len() > 0, old(m_stack)@.last() != 0, old(m_stack)@.last() + field.m_offset <= usize::MAX, old(m_field).p == 0
    ensures r is Ok, final(m_stack)@ == old(m_stack)@, final(m_name)@ == old(m_name)@, r->Ok_0 == (field.m_name@ != final(m_name)@),
        final(m_field).p == (if r->Ok_0 { 0 } else { old(m_stack)@.last() + field.m_offset }), !r->Ok_0 ==> final(m_field).t == field.m_type
//@at end
    assert(m_stack@ =~= old(m_stack)@);
//@end
//@fn tv_visit_compound name=visit_ nparams=1 types=const~Compound file=typelib/typevisitor.cc class=TypeVisitor flat=m_stack:&mut~Vec<usize>,m_name:&mut~Vec<u8>,m_field:&mut~VRef link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:FieldGetter|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor
//@spec
    requires fpre(old(m_stack)@, *old(m_field), type_)
    ensures fpost(old(m_stack)@, final(m_stack)@, old(m_name)@, final(m_name)@, *final(m_field), type_, r)
//@loop 1
    invariant *it.v == tfieldlist(type_), end.v == it.v, end.i == it.v@.len(), it.i <= it.v@.len(), m_stack@ == old(m_stack)@, m_name@ == old(m_name)@,
        fpre(m_stack@, *m_field, type_), !hasf(type_, m_name@, it.i as int)
    decreases it.v@.len() - it.i
//@at loop1.begin
    proof { lemma_wff(type_, it.i as int, tfields(type_).len() as int); }
    let ghost i0 = it.i as int;
//@at loop1.end
    proof { assert forall|k: int| 0 <= k < it.i && k < tfields(type_).len() implies #[trigger] tfields(type_)[k].m_name@ != m_name@ by { if k < i0 {} else { assert(k == i0); } } }
//@at return#1
    proof { assert(fat(type_, m_name@, i0)); }
//@end
//@fn vv_visit_compound name=visit_ nparams=2 types=const~Value.*const~Compound file=typelib/value.cc class=ValueVisitor params=_v,c flat=m_stack:&mut~Vec<usize>,m_name:&mut~Vec<u8>,m_field:&mut~VRef link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:FieldGetter|ValueVisitor vals=addr throws=yes dyn=FieldGetter,ValueVisitor
//@spec
    requires fpre(old(m_stack)@, *old(m_field), c)
    ensures fpost(old(m_stack)@, final(m_stack)@, old(m_name)@, final(m_name)@, *final(m_field), c, r)
//@end
//@fn td_visit_compound name=visit_ nparams=1 types=^const~Compound file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,m_name:&mut~Vec<u8>,m_field:&mut~VRef link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:FieldGetter|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor
//@spec
    requires fpre(old(m_stack)@, *old(m_field), type_)
    ensures fpost(old(m_stack)@, final(m_stack)@, old(m_name)@, final(m_name)@, *final(m_field), type_, r)
//@end
//@fn tv_dispatch name=dispatch file=typelib/typevisitor.cc class=TypeVisitor flat=m_stack:&mut~Vec<usize>,m_name:&mut~Vec<u8>,m_field:&mut~VRef link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:FieldGetter|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor
//@spec
    requires fpre(old(m_stack)@, *old(m_field), type_)
    ensures fpost(old(m_stack)@, final(m_stack)@, old(m_name)@, final(m_name)@, *final(m_field), type_, r)
//@end
//@fn tv_apply name=apply file=typelib/typevisitor.cc class=TypeVisitor flat=m_stack:&mut~Vec<usize>,m_name:&mut~Vec<u8>,m_field:&mut~VRef link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:FieldGetter|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor
//@spec
    requires fpre(old(m_stack)@, *old(m_field), type_)
    ensures r is Ok, fpost(old(m_stack)@, final(m_stack)@, old(m_name)@, final(m_name)@, *final(m_field), type_, Ok(r is Ok && final(m_field).p == 0))
//@end
//@fn td_apply name=apply file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,m_name:&mut~Vec<u8>,m_field:&mut~VRef link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:FieldGetter|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor
//@spec
    requires vok(value), old(m_field).p == 0, tcat(value.t) == Compound
    ensures r is Ok, final(m_name)@ == old(m_name)@, if final(m_field).p == 0 { !hasf(value.t, final(m_name)@, tfields(value.t).len() as int) } else { isf(*final(m_field), value.t, final(m_name)@, value.p as int) }
//@end
//@fn vv_apply name=apply file=typelib/value.cc class=ValueVisitor flat=m_stack:&mut~Vec<usize>,m_name:&mut~Vec<u8>,m_field:&mut~VRef link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:FieldGetter|ValueVisitor vals=addr throws=yes dyn=FieldGetter,ValueVisitor
//@spec
    requires vok(v), old(m_field).p == 0, tcat(v.t) == Compound
    ensures r is Ok, final(m_name)@ == old(m_name)@, if final(m_field).p == 0 { !hasf(v.t, final(m_name)@, tfields(v.t).len() as int) } else { isf(*final(m_field), v.t, final(m_name)@, v.p as int) }
//@end
//@fn fg_apply name=apply file=typelib/value.cc class=FieldGetter flat=m_stack:&mut~Vec<usize>,m_name:&mut~Vec<u8>,m_field:&mut~VRef link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:FieldGetter|ValueVisitor vals=addr throws=yes dyn=FieldGetter,ValueVisitor
//@spec
    requires vok(v)
    ensures r is Ok <==> tcat(v.t) == Compound && hasf(v.t, name@, tfields(v.t).len() as int), r is Ok ==> isf(r->Ok_0, v.t, name@, v.p as int)
//@end
//@fn value_get_field nparams=2 file=typelib/value.cc vals=addr throws=yes link=-:-
//@spec
    requires vok(v)
    ensures r is Ok <==> tcat(v.t) == Compound && hasf(v.t, name@, tfields(v.t).len() as int), r is Ok ==> isf(r->Ok_0, v.t, name@, v.p as int)
//@end
//@fn value_get_field_ptr name=value_get_field nparams=3 file=typelib/value.cc vals=addr throws=yes link=-:-
//@spec
    requires vok(VRef { p: ptr, t: type_ })
    ensures r is Ok <==> tcat(type_) == Compound && hasf(type_, name@, tfields(type_).len() as int), r is Ok ==> isf(r->Ok_0, type_, name@, ptr as int)
//@end
