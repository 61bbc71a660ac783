//@include maps.rs
pub struct MetaData { pub m_values: SMap<SSet> }
impl MetaData {
    // what reading gives: the stored set, empty when the key is not there
    pub open spec fn has(self, k: Seq<u8>, v: Seq<u8>) -> bool { self.m_values.has(k) && self.m_values.at(k).has(v) }
}
//@fn include file=typelib/typemodel.cc class=MetaData impl=impl~MetaData
//@spec
    requires self.m_values.ok()
    ensures r == self.m_values.has(key@)
//@end
//@fn get file=typelib/typemodel.cc class=MetaData nparams=1 impl=impl~MetaData
//@spec
    requires self.m_values.ok()
    ensures forall|v: Seq<u8>| #[trigger] r.has(v) == self.has(key@, v)
//@end
//@fn add file=typelib/typemodel.cc class=MetaData types=string.*string impl=impl~MetaData
//@spec
    requires old(self).m_values.ok()
    ensures final(self).m_values.ok(),
        forall|k: Seq<u8>| #[trigger] final(self).m_values.has(k) == (old(self).m_values.has(k) || k == key@),
        forall|k: Seq<u8>, v: Seq<u8>| #[trigger] final(self).has(k, v) == (old(self).has(k, v) || (k == key@ && v == value@))
//@at call:map_entry#1.after
    let ghost m1 = self.m_values;
    let ghost i0 = $ret as int;
//@at call:set_insert#1.after
    proof {
        assert(self.m_values.same_keys(m1));
        self.m_values.lemma_same_keys(m1);
    }
//@end
//@fn add_all file=typelib/typemodel.cc name=add class=MetaData types=Values impl=impl~MetaData
//@spec
    requires old(self).m_values.ok()
    ensures final(self).m_values.ok(),
        forall|k: Seq<u8>| #[trigger] final(self).m_values.has(k) == (old(self).m_values.has(k) || k == key@),
        forall|k: Seq<u8>, v: Seq<u8>| #[trigger] final(self).has(k, v) == (old(self).has(k, v) || (k == key@ && values.has(v)))
//@at call:map_entry#1.after
    let ghost m1 = self.m_values;
    let ghost i0 = $ret as int;
//@loop 1
    invariant it.v == values.v, it.i <= it.v@.len(), 0 <= i0 < m1.v@.len(), i0 == m1.ix(key@), m1.ok(), m1.has(key@), self.m_values.same_keys(m1),
        forall|j: int| 0 <= j < m1.v@.len() && j != i0 ==> #[trigger] self.m_values.v@[j] == m1.v@[j],
        forall|x: Seq<u8>| #[trigger] self.m_values.v@[i0].1.has(x) == (m1.v@[i0].1.has(x) || exists|j: int| 0 <= j < it.i && (#[trigger] values.v@[j])@ == x)
    decreases it.v@.len() - it.i
//@at end
    proof { assert(self.m_values.same_keys(m1)); self.m_values.lemma_same_keys(m1); }
//@end
//@fn clear_key file=typelib/typemodel.cc name=clear class=MetaData nparams=1 impl=impl~MetaData
//@spec
    requires old(self).m_values.ok()
    ensures final(self).m_values.ok(),
        forall|k: Seq<u8>| #[trigger] final(self).m_values.has(k) == (old(self).m_values.has(k) && k != key@),
        forall|k: Seq<u8>, v: Seq<u8>| #[trigger] final(self).has(k, v) == (old(self).has(k, v) && k != key@)
//@end
//@fn clear file=typelib/typemodel.cc class=MetaData nparams=0 impl=impl~MetaData
//@spec
    ensures final(self).m_values.ok(), forall|k: Seq<u8>| !#[trigger] final(self).m_values.has(k)
//@end
//@fn set file=typelib/typemodel.cc class=MetaData impl=impl~MetaData
//@spec
    requires old(self).m_values.ok()
    ensures final(self).m_values.ok(),
        forall|k: Seq<u8>| #[trigger] final(self).m_values.has(k) == (old(self).m_values.has(k) || k == key@),
        forall|k: Seq<u8>, v: Seq<u8>| #[trigger] final(self).has(k, v) == (if k == key@ { v == value@ } else { old(self).has(k, v) })
//@end
//@fn merge file=typelib/typemodel.cc class=MetaData impl=impl~MetaData
//@spec
    requires old(self).m_values.ok(), metadata.m_values.ok()
    ensures final(self).m_values.ok(),
        forall|k: Seq<u8>| #[trigger] final(self).m_values.has(k) == (old(self).m_values.has(k) || metadata.m_values.has(k)),
        forall|k: Seq<u8>, v: Seq<u8>| #[trigger] final(self).has(k, v) == (old(self).has(k, v) || metadata.has(k, v))
//@at entry
    let ghost m0 = *self;
//@loop 1
    invariant it.m == metadata.m_values, it.i <= it.m.v@.len(), self.m_values.ok(),
        forall|k: Seq<u8>| #[trigger] self.m_values.has(k) == (m0.m_values.has(k) || exists|j: int| 0 <= j < it.i && (#[trigger] metadata.m_values.v@[j]).0@ == k),
        forall|k: Seq<u8>, v: Seq<u8>| #[trigger] self.has(k, v) == (m0.has(k, v) || exists|j: int| 0 <= j < it.i && (#[trigger] metadata.m_values.v@[j]).0@ == k && metadata.m_values.v@[j].1.has(v))
    decreases it.m.v@.len() - it.i
//@at loop1.begin
    let ghost sb = *self;
    let ghost jb = it.i as int;
//@at call:map_entry#1.after
    let ghost m1 = self.m_values;
//@at call:set_insert_range#1.after
    proof {
        assert(self.m_values.same_keys(m1));
        self.m_values.lemma_same_keys(m1);
        let kb = metadata.m_values.v@[jb].0@;
        assert(m1.v@[m1.ix(kb)].0@ == kb);
        assert forall|k: Seq<u8>, v: Seq<u8>| #[trigger] self.has(k, v) == (sb.has(k, v) || (k == kb && metadata.m_values.v@[jb].1.has(v))) by {}
    }
//@at loop1.after
    proof {
        assert forall|k: Seq<u8>, v: Seq<u8>| #[trigger] self.has(k, v) == (m0.has(k, v) || metadata.has(k, v)) by {
            if metadata.has(k, v) { let j = metadata.m_values.ix(k); assert(metadata.m_values.v@[j].0@ == k && metadata.m_values.v@[j].1.has(v)); }
            if exists|j: int| 0 <= j < metadata.m_values.v@.len() && (#[trigger] metadata.m_values.v@[j]).0@ == k && metadata.m_values.v@[j].1.has(v) {
                let j = choose|j: int| 0 <= j < metadata.m_values.v@.len() && (#[trigger] metadata.m_values.v@[j]).0@ == k && metadata.m_values.v@[j].1.has(v);
                metadata.m_values.lemma_at(j);
            }
        }
    }
//@end
