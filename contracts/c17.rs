//@include c18.rs
//@include reg.rs
// the same names, bound to the same definitions
pub open spec fn regsame(a: TMap, b: TMap) -> bool { forall|k: Seq<u8>| #![trigger a.has(k)] a.has(k) == b.has(k) && (a.has(k) ==> same(((a.at(k).type_, b.at(k).type_), true))) }
pub proof fn lemma_len(a: TMap, b: TMap)
    requires a.ok(), b.ok(), forall|k: Seq<u8>| #[trigger] a.has(k) ==> b.has(k)
    ensures a.v@.len() <= b.v@.len()
{
    let ka = a.v@.map_values(|e: (Vec<u8>, RegistryType)| e.0@);
    let kb = b.v@.map_values(|e: (Vec<u8>, RegistryType)| e.0@);
    assert(ka.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < ka.len() && 0 <= j < ka.len() && i != j implies ka[i] != ka[j] by { if i < j { assert(a.v@[i].0@ != a.v@[j].0@); } else { assert(a.v@[j].0@ != a.v@[i].0@); } } }
    assert(kb.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < kb.len() && 0 <= j < kb.len() && i != j implies kb[i] != kb[j] by { if i < j { assert(b.v@[i].0@ != b.v@[j].0@); } else { assert(b.v@[j].0@ != b.v@[i].0@); } } }
    ka.unique_seq_to_set();
    kb.unique_seq_to_set();
    assert(ka.to_set().subset_of(kb.to_set())) by {
        assert forall|k: Seq<u8>| ka.to_set().contains(k) implies kb.to_set().contains(k) by {
            let i = choose|i: int| 0 <= i < ka.len() && ka[i] == k;
            assert(a.v@[i].0@ == k);
            assert(a.has(k));
            let j = b.ix(k);
            assert(kb[j] == k);
        }
    }
    vstd::set_lib::lemma_len_subset(ka.to_set(), kb.to_set());
}
// at the first position where two sorted maps have different names, the smaller name is missing in the other map
pub proof fn lemma_first(a: TMap, b: TMap, i: int)
    requires sorted(a), sorted(b), 0 <= i < a.v@.len(), i < b.v@.len(), forall|j: int| 0 <= j < i ==> (#[trigger] a.v@[j]).0@ == b.v@[j].0@, lt(a.v@[i].0@, b.v@[i].0@)
    ensures a.has(a.v@[i].0@), !b.has(a.v@[i].0@)
{
    let k = a.v@[i].0@;
    if b.has(k) {
        let j = b.ix(k);
        if j < i { assert(a.v@[j].0@ == k); assert(lt(a.v@[j].0@, k)); theorem_irreflexive(k); }
        else if j == i { theorem_irreflexive(k); }
        else { assert(lt(b.v@[i].0@, b.v@[j].0@)); theorem_transitive(k, b.v@[i].0@, k); theorem_irreflexive(k); }
    }
}
//@fn Registry::isSame file=typelib/registry.cc impl=impl~Registry class=Registry
//@spec
    requires sorted(self.m_global), sorted(other.m_global)
    ensures r == regsame(self.m_global, other.m_global)
//@at entry
let ghost a = self.m_global;
let ghost b = other.m_global;
proof { if regsame(a, b) { lemma_len(a, b); assert forall|k: Seq<u8>| #[trigger] b.has(k) implies a.has(k) by { assert(a.has(k) == b.has(k)); } lemma_len(b, a); } }
//@loop 1
invariant left_it.m == a, right_it.m == b, left_end.m == a, left_end.i == a.v@.len(), 0 <= left_it.i <= left_end.i, right_it.i == left_it.i, a.v@.len() == b.v@.len(), sorted(a), sorted(b),
    forall|j: int| 0 <= j < left_it.i ==> (#[trigger] a.v@[j]).0@ == b.v@[j].0@ && same(((a.v@[j].1.type_, b.v@[j].1.type_), true))
decreases a.v@.len() - left_it.i
//@at loop1.begin
proof {
    let i = left_it.i as int;
    a.lemma_at(i); b.lemma_at(i);
    if a.v@[i].0@ != b.v@[i].0@ {
        theorem_total(a.v@[i].0@, b.v@[i].0@);
        if lt(a.v@[i].0@, b.v@[i].0@) { lemma_first(a, b, i); assert(a.has(a.v@[i].0@) != b.has(a.v@[i].0@)); }
        else { lemma_first(b, a, i); assert(a.has(b.v@[i].0@) != b.has(b.v@[i].0@)); }
    }
}
//@at loop1.after
proof {
    assert forall|k: Seq<u8>| a.has(k) == b.has(k) && (a.has(k) ==> same(((a.at(k).type_, b.at(k).type_), true))) by {
        if a.has(k) { let i = a.ix(k); assert(a.v@[i].0@ == k); a.lemma_at(i); b.lemma_at(i); assert(b.v@[i].0@ == k); }
        if b.has(k) { let i = b.ix(k); assert(b.v@[i].0@ == k); assert(a.v@[i].0@ == k); a.lemma_at(i); }
    }
}
//@end
pub proof fn theorem_reg_reflexive(a: TMap) ensures regsame(a, a) {}
pub proof fn theorem_reg_symmetric(a: TMap, b: TMap)
    requires regsame(a, b)
    ensures regsame(b, a)
{
    assert forall|k: Seq<u8>| #![trigger b.has(k)] b.has(k) == a.has(k) && (b.has(k) ==> same(((b.at(k).type_, a.at(k).type_), true))) by {
        assert(a.has(k) == b.has(k));
        if a.has(k) { theorem_symmetric(a.at(k).type_, b.at(k).type_); }
    }
}
pub proof fn theorem_reg_transitive(a: TMap, b: TMap, c: TMap)
    requires regsame(a, b), regsame(b, c)
    ensures regsame(a, c)
{
    assert forall|k: Seq<u8>| #![trigger a.has(k)] a.has(k) == c.has(k) && (a.has(k) ==> same(((a.at(k).type_, c.at(k).type_), true))) by {
        assert(a.has(k) == b.has(k));
        assert(b.has(k) == c.has(k));
        if a.has(k) { theorem_transitive_types(a.at(k).type_, b.at(k).type_, c.at(k).type_); }
    }
}
// one name more, one fewer, or one different definition
pub proof fn theorem_reg_differs(a: TMap, b: TMap, k: Seq<u8>)
    requires a.has(k) != b.has(k) || (a.has(k) && !same(((a.at(k).type_, b.at(k).type_), true)))
    ensures !regsame(a, b)
{ let x = a.has(k); }
