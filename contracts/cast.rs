//@include tree.rs
//@inst inst_cast.cc #include <limits>\n#include <boost/mpl/if.hpp>\n#include <boost/mpl/bool.hpp>\n#include <typelib/value_cast.hh>\ntemplate class Typelib::CastingVisitor<%T>;\ntemplate %T Typelib::value_cast<%T>(Typelib::Value);\ntemplate %T Typelib::value_cast<%T>(void*, Typelib::Type const&);
// value_cast<%T>. A value is an address and a type; a number in memory is an address, a size and a kind.
// The CastingVisitor, its ValueVisitor part and the TypeDispatch it owns are one object, passed as its members.
pub struct VRef { pub p: usize, pub t: TyRef }
impl Copy for VRef {}
impl Clone for VRef { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
pub struct NRef { pub p: usize, pub size: usize, pub cat: u32 }
impl Copy for NRef {}
impl Clone for NRef { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl NRef { pub fn at(p: usize, size: usize, cat: u32) -> (r: NRef) ensures r == (NRef { p, size, cat }) { NRef { p, size, cat } } }
#[verifier::external_body]
pub fn arbitrary_nref() -> NRef { unimplemented!() }
#[verifier::external_body]
pub fn arbitrary_vec_usize() -> Vec<usize> { unimplemented!() }
pub const SInt: u32 = 8;
pub const UInt: u32 = 9;
pub const Float: u32 = 10;
pub uninterp spec fn tnum(t: TyRef) -> u32;
impl TyRef {
    #[verifier::external_body]
    pub fn getNumericCategory(self) -> (r: u32) requires tcat(self) == Numeric ensures r == tnum(self), r <= 11 { unimplemented!() }
}
#[verifier::external_body]
pub fn as_container(t: TyRef) -> (r: TyRef) requires tcat(t) == Container ensures r == t { unimplemented!() }
pub open spec fn hit(t: TyRef) -> bool { tcat(t) == Numeric && tnum(t) == %Tcat && tsize(t) == %Tsize }
pub open spec fn num(p: usize) -> NRef { NRef { p, size: %Tsize, cat: %Tcat } }
//@fn td_nulltype name=visit_ nparams=1 types=^const~NullType file=typelib/typevisitor.cc class=TypeVisitor flat=m_stack:&mut~Vec<usize>,m_found:&mut~bool,m_value:&mut~NRef,m_defval:bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:CastingVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor assumed=never~reached:~the~precondition~is~false
//@spec
    requires false
//@end
//@fn td_enum name=visit_ nparams=1 types=^const~Enum file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,m_found:&mut~bool,m_value:&mut~NRef,m_defval:bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:CastingVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor assumed=never~reached:~the~precondition~is~false
//@spec
    requires false
//@end
//@fn td_array name=visit_ nparams=1 types=^const~Array file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,m_found:&mut~bool,m_value:&mut~NRef,m_defval:bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:CastingVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor assumed=never~reached:~the~precondition~is~false
//@spec
    requires false
//@end
//@fn td_pointer name=visit_ nparams=1 types=^const~Pointer file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,m_found:&mut~bool,m_value:&mut~NRef,m_defval:bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:CastingVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor assumed=never~reached:~the~precondition~is~false
//@spec
    requires false
//@end
//@fn td_opaquetype name=visit_ nparams=1 types=^const~OpaqueType file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,m_found:&mut~bool,m_value:&mut~NRef,m_defval:bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:CastingVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor assumed=never~reached:~the~precondition~is~false
//@spec
    requires false
//@end
//@fn td_container name=visit_ nparams=1 types=^const~Container file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,m_found:&mut~bool,m_value:&mut~NRef,m_defval:bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:CastingVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor assumed=never~reached:~the~precondition~is~false
//@spec
    requires false
//@end
//@fn td_compound name=visit_ nparams=1 types=^const~Compound file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,m_found:&mut~bool,m_value:&mut~NRef,m_defval:bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:CastingVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor assumed=never~reached:~the~precondition~is~false
//@spec
    requires false
//@end
//@fn vv_signed_char name=visit_ nparams=1 params=v types=^int8_t~& file=typelib/value.cc class=ValueVisitor flat=m_stack:&mut~Vec<usize>,m_found:&mut~bool,m_value:&mut~NRef,m_defval:bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:CastingVisitor|ValueVisitor vals=addr throws=yes dyn=CastingVisitor,ValueVisitor
//@spec
    ensures r is Ok, final(m_stack)@ == old(m_stack)@, *final(m_found) == *old(m_found), *final(m_value) == *old(m_value)
//@end
//@fn vv_unsigned_char name=visit_ nparams=1 params=v types=^uint8_t~& file=typelib/value.cc class=ValueVisitor flat=m_stack:&mut~Vec<usize>,m_found:&mut~bool,m_value:&mut~NRef,m_defval:bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:CastingVisitor|ValueVisitor vals=addr throws=yes dyn=CastingVisitor,ValueVisitor
//@spec
    ensures r is Ok, final(m_stack)@ == old(m_stack)@, *final(m_found) == *old(m_found), *final(m_value) == *old(m_value)
//@end
//@fn vv_short name=visit_ nparams=1 params=v types=^int16_t~& file=typelib/value.cc class=ValueVisitor flat=m_stack:&mut~Vec<usize>,m_found:&mut~bool,m_value:&mut~NRef,m_defval:bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:CastingVisitor|ValueVisitor vals=addr throws=yes dyn=CastingVisitor,ValueVisitor
//@spec
    ensures r is Ok, final(m_stack)@ == old(m_stack)@, *final(m_found) == *old(m_found), *final(m_value) == *old(m_value)
//@end
//@fn vv_unsigned_short name=visit_ nparams=1 params=v types=^uint16_t~& file=typelib/value.cc class=ValueVisitor flat=m_stack:&mut~Vec<usize>,m_found:&mut~bool,m_value:&mut~NRef,m_defval:bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:CastingVisitor|ValueVisitor vals=addr throws=yes dyn=CastingVisitor,ValueVisitor
//@spec
    ensures r is Ok, final(m_stack)@ == old(m_stack)@, *final(m_found) == *old(m_found), *final(m_value) == *old(m_value)
//@end
//@fn vv_int name=visit_ nparams=1 params=v types=^int32_t~& file=typelib/value.cc class=ValueVisitor flat=m_stack:&mut~Vec<usize>,m_found:&mut~bool,m_value:&mut~NRef,m_defval:bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:CastingVisitor|ValueVisitor vals=addr throws=yes dyn=CastingVisitor,ValueVisitor
//@spec
    ensures r is Ok, final(m_stack)@ == old(m_stack)@, *final(m_found) == *old(m_found), *final(m_value) == *old(m_value)
//@end
//@fn vv_unsigned_int name=visit_ nparams=1 params=v types=^uint32_t~& file=typelib/value.cc class=ValueVisitor flat=m_stack:&mut~Vec<usize>,m_found:&mut~bool,m_value:&mut~NRef,m_defval:bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:CastingVisitor|ValueVisitor vals=addr throws=yes dyn=CastingVisitor,ValueVisitor
//@spec
    ensures r is Ok, final(m_stack)@ == old(m_stack)@, *final(m_found) == *old(m_found), *final(m_value) == *old(m_value)
//@end
//@fn vv_long name=visit_ nparams=1 params=v types=^int64_t~& file=typelib/value.cc class=ValueVisitor flat=m_stack:&mut~Vec<usize>,m_found:&mut~bool,m_value:&mut~NRef,m_defval:bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:CastingVisitor|ValueVisitor vals=addr throws=yes dyn=CastingVisitor,ValueVisitor
//@spec
    ensures r is Ok, final(m_stack)@ == old(m_stack)@, *final(m_found) == *old(m_found), *final(m_value) == *old(m_value)
//@end
//@fn vv_unsigned_long name=visit_ nparams=1 params=v types=^uint64_t~& file=typelib/value.cc class=ValueVisitor flat=m_stack:&mut~Vec<usize>,m_found:&mut~bool,m_value:&mut~NRef,m_defval:bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:CastingVisitor|ValueVisitor vals=addr throws=yes dyn=CastingVisitor,ValueVisitor
//@spec
    ensures r is Ok, final(m_stack)@ == old(m_stack)@, *final(m_found) == *old(m_found), *final(m_value) == *old(m_value)
//@end
//@fn vv_float name=visit_ nparams=1 params=v types=^float~& file=typelib/value.cc class=ValueVisitor flat=m_stack:&mut~Vec<usize>,m_found:&mut~bool,m_value:&mut~NRef,m_defval:bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:CastingVisitor|ValueVisitor vals=addr throws=yes dyn=CastingVisitor,ValueVisitor
//@spec
    ensures r is Ok, final(m_stack)@ == old(m_stack)@, *final(m_found) == *old(m_found), *final(m_value) == *old(m_value)
//@end
//@fn vv_double name=visit_ nparams=1 params=v types=^double~& file=typelib/value.cc class=ValueVisitor flat=m_stack:&mut~Vec<usize>,m_found:&mut~bool,m_value:&mut~NRef,m_defval:bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:CastingVisitor|ValueVisitor vals=addr throws=yes dyn=CastingVisitor,ValueVisitor
//@spec
    ensures r is Ok, final(m_stack)@ == old(m_stack)@, *final(m_found) == *old(m_found), *final(m_value) == *old(m_value)
//@end
//@fn cv_visit name=visit_ nparams=1 params=v targs=%T~ file=@inst_cast.cc class=CastingVisitor flat=m_stack:&mut~Vec<usize>,m_found:&mut~bool,m_value:&mut~NRef,m_defval:bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:CastingVisitor|ValueVisitor vals=addr throws=yes dyn=CastingVisitor,ValueVisitor
//@spec
    ensures r is Ok, final(m_stack)@ == old(m_stack)@, *final(m_found), *final(m_value) == v
//@end
//@fn integer_cast_s name=integer_cast nparams=2 params=value,t targs=signed~char,short,int,long file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,m_found:&mut~bool,m_value:&mut~NRef,m_defval:bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:CastingVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor
//@spec
    requires tcat(t) == Numeric, tnum(t) == SInt
    ensures r is Ok ==> final(m_stack)@ == old(m_stack)@,
        if hit(t) { r is Ok && *final(m_found) && *final(m_value) == num(value) } else { *final(m_found) == *old(m_found) }
//@end
//@fn integer_cast_u name=integer_cast nparams=2 params=value,t targs=unsigned~char,unsigned~short,unsigned~int,unsigned~long file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,m_found:&mut~bool,m_value:&mut~NRef,m_defval:bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:CastingVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor
//@spec
    requires tcat(t) == Numeric, tnum(t) == UInt
    ensures r is Ok ==> final(m_stack)@ == old(m_stack)@,
        if hit(t) { r is Ok && *final(m_found) && *final(m_value) == num(value) } else { *final(m_found) == *old(m_found) }
//@end
//@fn td_numeric name=visit_ nparams=1 types=^const~Numeric file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,m_found:&mut~bool,m_value:&mut~NRef,m_defval:bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:CastingVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor
//@spec
    requires old(m_stack)@.len() > 0, tcat(type_) == Numeric
    ensures r is Ok ==> final(m_stack)@ == old(m_stack)@,
        if hit(type_) { r is Ok && *final(m_found) && *final(m_value) == num(old(m_stack)@.last()) } else { *final(m_found) == *old(m_found) }
//@end
//@fn tv_dispatch name=dispatch file=typelib/typevisitor.cc class=TypeVisitor flat=m_stack:&mut~Vec<usize>,m_found:&mut~bool,m_value:&mut~NRef,m_defval:bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:CastingVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor
//@spec
    requires old(m_stack)@.len() > 0, tcat(type_) == Numeric
    ensures r is Ok ==> final(m_stack)@ == old(m_stack)@,
        if hit(type_) { r is Ok && *final(m_found) && *final(m_value) == num(old(m_stack)@.last()) } else { *final(m_found) == *old(m_found) }
//@end
//@fn tv_apply name=apply file=typelib/typevisitor.cc class=TypeVisitor flat=m_stack:&mut~Vec<usize>,m_found:&mut~bool,m_value:&mut~NRef,m_defval:bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:CastingVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor
//@spec
    requires old(m_stack)@.len() > 0, tcat(type_) == Numeric
    ensures r is Ok ==> final(m_stack)@ == old(m_stack)@,
        if hit(type_) { r is Ok && *final(m_found) && *final(m_value) == num(old(m_stack)@.last()) } else { *final(m_found) == *old(m_found) }
//@end
//@fn td_apply name=apply file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,m_found:&mut~bool,m_value:&mut~NRef,m_defval:bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:CastingVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor
//@spec
    requires tcat(value.t) == Numeric
    ensures if hit(value.t) { r is Ok && *final(m_found) && *final(m_value) == num(value.p) } else { *final(m_found) == *old(m_found) }
//@end
//@fn vv_apply name=apply file=typelib/value.cc class=ValueVisitor flat=m_stack:&mut~Vec<usize>,m_found:&mut~bool,m_value:&mut~NRef,m_defval:bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:CastingVisitor|ValueVisitor vals=addr throws=yes dyn=CastingVisitor,ValueVisitor
//@spec
    requires tcat(v.t) == Numeric
    ensures if hit(v.t) { r is Ok && *final(m_found) && *final(m_value) == num(v.p) } else { *final(m_found) == *old(m_found) }
//@end
//@fn cv_apply name=apply targs=%T~ file=@inst_cast.cc class=CastingVisitor ret=NRef flat=m_stack:&mut~Vec<usize>,m_found:&mut~bool,m_value:&mut~NRef,m_defval:bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:CastingVisitor|ValueVisitor vals=addr throws=yes dyn=CastingVisitor,ValueVisitor
//@spec
    ensures r is Ok <==> hit(v.t), r is Ok ==> r->Ok_0 == num(v.p)
//@end
//@fn value_cast name=value_cast nparams=1 targs=%T~ file=@inst_cast.cc ret=NRef vals=addr throws=yes link=-:-
//@spec
    ensures r is Ok <==> hit(v.t), r is Ok ==> r->Ok_0 == num(v.p)
//@end
//@fn value_cast_ptr name=value_cast nparams=2 targs=%T~ file=@inst_cast.cc ret=NRef vals=addr throws=yes link=-:-
//@spec
    ensures r is Ok <==> hit(type_), r is Ok ==> r->Ok_0 == num(ptr)
//@end
