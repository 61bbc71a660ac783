//@include maps.rs
pub struct Enum { pub m_last_value: i32, pub m_values: SMap<i32> }
//@fn add file=typelib/typemodel.cc class=Enum throws=yes impl=impl~Enum mapstore=yes
//@spec
    requires old(self).m_values.ok()
    ensures final(self).m_values.ok(),
        // a taken symbol keeps its value; giving it another one is refused and changes nothing
        r is Err <==> old(self).m_values.has(name@) && old(self).m_values.at(name@) != value,
        r is Err ==> *final(self) == *old(self),
        r is Ok ==> final(self).m_values.has(name@) && final(self).m_values.at(name@) == value && final(self).m_last_value == value,
        forall|x: Seq<u8>| #[trigger] final(self).m_values.has(x) == (old(self).m_values.has(x) || (r is Ok && x == name@)),
        forall|x: Seq<u8>| old(self).m_values.has(x) ==> #[trigger] final(self).m_values.at(x) == old(self).m_values.at(x)
//@end
//@fn get file=typelib/typemodel.cc class=Enum types=basic_string|std::string throws=yes impl=impl~Enum
//@spec
    requires self.m_values.ok()
    ensures r is Ok <==> self.m_values.has(name@), r is Ok ==> r->Ok_0 == self.m_values.at(name@)
//@end
//@fn get_name file=typelib/typemodel.cc name=get class=Enum types=^int$ throws=yes impl=impl~Enum
//@spec
    requires self.m_values.ok()
    ensures r is Err <==> forall|x: Seq<u8>| #[trigger] self.m_values.has(x) ==> self.m_values.at(x) != value,
        r is Ok ==> self.m_values.has(r->Ok_0@) && self.m_values.at(r->Ok_0@) == value
//@loop 1
    invariant self.m_values.ok(), it.m == self.m_values, it.i <= it.m.v@.len(), forall|j: int| 0 <= j < it.i ==> (#[trigger] self.m_values.v@[j]).1 != value
    decreases it.m.v@.len() - it.i
//@at return
    proof { self.m_values.lemma_at(it.i as int); }
//@at throw
    proof { assert forall|x: Seq<u8>| #[trigger] self.m_values.has(x) implies self.m_values.at(x) != value by { let j = self.m_values.ix(x); assert(self.m_values.v@[j].1 != value); } }
//@end
//@fn names file=typelib/typemodel.cc class=Enum impl=impl~Enum
//@spec
    requires self.m_values.ok()
    ensures r@.len() == self.m_values.v@.len(), forall|j: int| 0 <= j < r@.len() ==> (#[trigger] r@[j])@ == self.m_values.v@[j].0@
//@loop 1
    invariant it.m == self.m_values, it.i <= it.m.v@.len(), ret@.len() == it.i, forall|j: int| 0 <= j < it.i ==> (#[trigger] ret@[j])@ == self.m_values.v@[j].0@
    decreases it.m.v@.len() - it.i
//@end
//@fn getNextValue file=typelib/typemodel.cc class=Enum impl=impl~Enum
//@spec
    requires self.m_last_value < 0x7fff_ffff
    ensures r == self.m_last_value + 1
//@end
