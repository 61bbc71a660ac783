//@include zero.rs
//@include init.rs
//@include destroy.rs
//@include values.rs
// the initialisation cells of a type (decided for C05 and C04)
pub open spec fn layout_more(t: TyRef, r: Result<MemoryLayout, Ex>) -> bool { r is Ok ==> ilok(&r->Ok_0) && ilc(&r->Ok_0) == licells(t) }
pub uninterp spec fn licells(t: TyRef) -> Seq<ICell>;
pub open spec fn ilok(l: &MemoryLayout) -> bool { iblk(l.init_ops@, 0) is Some && ibe(l.init_ops@, 0) == l.init_ops@.len() }
pub open spec fn ilc(l: &MemoryLayout) -> Seq<ICell> { ibc(l.init_ops@, 0) }
//@fn zero_3 name=zero file=typelib/value_ops.cc types=^.*uint8_t~\*, nparams=2 value=mut throws=yes
//@spec
    requires lok(ops), data == 0, old(mem_data)@.b.len() <= OBJ_MAX, wf(lc(ops), old(mem_data)@, 0)
    ensures r is Ok, zst(lc(ops), old(mem_data)@, final(mem_data)@, 0, lc(ops).len() as int)
//@end
//@fn zero_2 name=zero file=typelib/value_ops.cc types=^(Typelib::)?Value, nparams=2 value=mut throws=yes
//@spec
    requires lok(ops), v.o == 0, old(mem_v)@.b.len() <= OBJ_MAX, wf(lc(ops), old(mem_v)@, 0)
    ensures r is Ok, zst(lc(ops), old(mem_v)@, final(mem_v)@, 0, lc(ops).len() as int)
//@end
//@fn zero_1 name=zero file=typelib/value_ops.cc types=^(Typelib::)?Value$ nparams=1 value=mut throws=yes
//@spec
    requires v.o == 0, old(mem_v)@.b.len() <= OBJ_MAX, tc(v.t) is Some ==> wf(tc(v.t)->Some_0, old(mem_v)@, 0)
    ensures r is Ok <==> tc(v.t) is Some, r is Err ==> final(mem_v)@ == old(mem_v)@, r is Ok ==> zst(tc(v.t)->Some_0, old(mem_v)@, final(mem_v)@, 0, tc(v.t)->Some_0.len() as int)
//@end
//@fn init_3 name=init file=typelib/value_ops.cc types=^.*uint8_t~\*, nparams=2 value=mut throws=yes
//@spec
    requires ilok(ops), data == 0, old(mem_data)@.b.len() <= OBJ_MAX, blank(ilc(ops), old(mem_data)@, 0)
    ensures r is Ok, ist(ilc(ops), old(mem_data)@, final(mem_data)@, 0, ilc(ops).len() as int)
//@end
//@fn init_2 name=init file=typelib/value_ops.cc types=^(Typelib::)?Value, nparams=2 value=mut throws=yes
//@spec
    requires ilok(ops), v.o == 0, old(mem_v)@.b.len() <= OBJ_MAX, blank(ilc(ops), old(mem_v)@, 0)
    ensures r is Ok, ist(ilc(ops), old(mem_v)@, final(mem_v)@, 0, ilc(ops).len() as int)
//@end
//@fn init_1 name=init file=typelib/value_ops.cc types=^(Typelib::)?Value$ nparams=1 value=mut throws=yes
//@spec
    requires v.o == 0, old(mem_v)@.b.len() <= OBJ_MAX, tc(v.t) is Some ==> blank(licells(v.t), old(mem_v)@, 0)
    ensures r is Ok <==> tc(v.t) is Some, r is Err ==> final(mem_v)@ == old(mem_v)@, r is Ok ==> ist(licells(v.t), old(mem_v)@, final(mem_v)@, 0, licells(v.t).len() as int)
//@end
//@fn destroy_3 name=destroy file=typelib/value_ops.cc types=^.*uint8_t~\*, nparams=2 value=mut throws=yes
//@spec
    requires lok(ops), data == 0, old(mem_data)@.b.len() <= OBJ_MAX, wf(lc(ops), old(mem_data)@, 0)
    ensures r is Ok, dst(lc(ops), old(mem_data)@, final(mem_data)@, 0, lc(ops).len() as int)
//@end
//@fn destroy_2 name=destroy file=typelib/value_ops.cc types=^(Typelib::)?Value, nparams=2 value=mut throws=yes
//@spec
    requires lok(ops), v.o == 0, old(mem_v)@.b.len() <= OBJ_MAX, wf(lc(ops), old(mem_v)@, 0)
    ensures r is Ok, dst(lc(ops), old(mem_v)@, final(mem_v)@, 0, lc(ops).len() as int)
//@end
//@fn destroy_1 name=destroy file=typelib/value_ops.cc types=^(Typelib::)?Value$ nparams=1 value=mut throws=yes
//@spec
    requires v.o == 0, old(mem_v)@.b.len() <= OBJ_MAX, tc(v.t) is Some ==> wf(tc(v.t)->Some_0, old(mem_v)@, 0)
    ensures r is Ok <==> tc(v.t) is Some, r is Err ==> final(mem_v)@ == old(mem_v)@, r is Ok ==> dst(tc(v.t)->Some_0, old(mem_v)@, final(mem_v)@, 0, tc(v.t)->Some_0.len() as int)
//@end
