//@include tree.rs
pub fn handle_eq(a: usize, b: usize) -> (r: bool) ensures r == (a == b) { a == b }
//@include reg.rs
impl Field {
    #[verifier::external_body]
    pub fn getType(&self) -> (r: TyRef) ensures r == self.m_type { unimplemented!() }
}
#[verifier::external_body]
pub proof fn axiom_cat(t: TyRef) ensures tcat(t) <= 7 {}
// t refers to d
pub open spec fn dep(t: TyRef, d: TyRef) -> bool {
    if tcat(t) == Array || tcat(t) == Pointer || tcat(t) == Container { d == tind(t) }
    else if tcat(t) == Compound { exists|i: int| 0 <= i < tfields(t).len() && (#[trigger] tfields(t)[i]).m_type == d }
    else { false }
}
// the types of the registry (without the aliases)
pub open spec fn regd(m: TMap, t: TyRef) -> bool { exists|i: int| 0 <= i < m.v@.len() && (#[trigger] m.v@[i]).1.type_ == t && !isalias(m.v@[i]) }
pub open spec fn step(m: TMap, p: Seq<TyRef>, i: int) -> bool { regd(m, p[i]) && dep(p[i], p[i + 1]) }
pub open spec fn chain(m: TMap, p: Seq<TyRef>, t: TyRef, d: TyRef) -> bool { p.len() >= 1 && p[0] == t && p.last() == d && forall|i: int| 0 <= i < p.len() - 1 ==> #[trigger] step(m, p, i) }
// t is d, or refers to it through types of the registry
pub open spec fn reaches(m: TMap, t: TyRef, d: TyRef) -> bool { exists|p: Seq<TyRef>| chain(m, p, t, d) }
pub proof fn lemma_reach_self(m: TMap, d: TyRef) ensures reaches(m, d, d) { assert(chain(m, seq![d], d, d)); }
pub proof fn lemma_reach_step(m: TMap, t: TyRef, x: TyRef, d: TyRef)
    requires regd(m, t), dep(t, x), reaches(m, x, d)
    ensures reaches(m, t, d)
{
    let p = choose|p: Seq<TyRef>| chain(m, p, x, d);
    let q = seq![t] + p;
    assert(q.last() == d);
    assert forall|i: int| 0 <= i < q.len() - 1 implies #[trigger] step(m, q, i) by { if i > 0 { assert(step(m, p, i - 1)); } }
    assert(chain(m, q, t, d));
}
// a set with d that every registered type referring to it belongs to contains all that reach d
pub proof fn lemma_closed_set(m: TMap, s: TSet, d: TyRef, t: TyRef)
    requires s.has(d), forall|t: TyRef, x: TyRef| regd(m, t) && s.has(x) && #[trigger] dep(t, x) ==> s.has(t), reaches(m, t, d)
    ensures s.has(t)
{
    let p = choose|p: Seq<TyRef>| chain(m, p, t, d);
    lemma_closed_from(m, s, p, d, p.len() - 1);
}
pub proof fn lemma_closed_from(m: TMap, s: TSet, p: Seq<TyRef>, d: TyRef, n: int)
    requires p.len() >= 1, p.last() == d, forall|i: int| 0 <= i < p.len() - 1 ==> #[trigger] step(m, p, i), s.has(d), forall|t: TyRef, x: TyRef| regd(m, t) && s.has(x) && #[trigger] dep(t, x) ==> s.has(t), 0 <= n < p.len()
    ensures s.has(p[p.len() - 1 - n])
    decreases n
{ if n > 0 { lemma_closed_from(m, s, p, d, n - 1); assert(step(m, p, p.len() - 1 - n)); } }
pub open spec fn universe(m: TMap, d: TyRef) -> Set<TyRef> { m.v@.map_values(|e: (Vec<u8>, RegistryType)| e.1.type_).to_set().insert(d) }
pub proof fn lemma_universe(m: TMap, d: TyRef, t: TyRef)
    requires regd(m, t) || t == d
    ensures universe(m, d).contains(t)
{
    if regd(m, t) {
        let i = choose|i: int| 0 <= i < m.v@.len() && (#[trigger] m.v@[i]).1.type_ == t && !isalias(m.v@[i]);
        let s = m.v@.map_values(|e: (Vec<u8>, RegistryType)| e.1.type_);
        assert(s[i] == t);
        assert(s.to_set().contains(t));
    }
}
pub open spec fn tset(s: TSet) -> Set<TyRef> { s.v@.to_set() }
pub open spec fn left(m: TMap, d: TyRef, s: TSet) -> nat { universe(m, d).difference(tset(s)).len() }
pub proof fn lemma_left(m: TMap, d: TyRef, a: TSet, b: TSet, x: TyRef)
    requires forall|t: TyRef| #[trigger] a.has(t) ==> b.has(t), b.has(x), !a.has(x), universe(m, d).contains(x)
    ensures left(m, d, b) < left(m, d, a)
{
    let u = universe(m, d).difference(tset(a));
    let w = universe(m, d).difference(tset(b));
    assert forall|t: TyRef| #[trigger] tset(a).contains(t) == a.has(t) by { if a.has(t) { let i = choose|i: int| 0 <= i < a.v@.len() && #[trigger] a.v@[i] == t; assert(a.v@.contains(t)); } }
    assert forall|t: TyRef| #[trigger] tset(b).contains(t) == b.has(t) by { if b.has(t) { let i = choose|i: int| 0 <= i < b.v@.len() && #[trigger] b.v@[i] == t; assert(b.v@.contains(t)); } }
    assert(u.contains(x) && !w.contains(x));
    assert forall|t: TyRef| w.contains(t) implies u.remove(x).contains(t) by { assert(!tset(b).contains(t)); assert(!b.has(t)); assert(!a.has(t)); assert(!tset(a).contains(t)); }
    vstd::set_lib::lemma_len_subset(w, u.remove(x));
}
//@fn Type_dependsOn this=TyRef file=typelib/typemodel.cc class=NullType name=dependsOn dispatch=any_dependsOn overrides=NullType,OpaqueType,Numeric,Enum,Indirect,Compound
//@spec
    ensures forall|d: TyRef| !#[trigger] r.has(d)
//@end
//@fn Opaque_dependsOn this=TyRef file=typelib/typemodel.cc class=OpaqueType name=dependsOn
//@spec
    ensures forall|d: TyRef| !#[trigger] r.has(d)
//@end
//@fn Numeric_dependsOn this=TyRef file=typelib/typemodel.cc class=Numeric name=dependsOn
//@spec
    ensures forall|d: TyRef| !#[trigger] r.has(d)
//@end
//@fn Enum_dependsOn this=TyRef file=typelib/typemodel.cc class=Enum name=dependsOn
//@spec
    ensures forall|d: TyRef| !#[trigger] r.has(d)
//@end
//@fn Indirect_dependsOn this=TyRef file=typelib/typemodel.cc class=Indirect name=dependsOn
//@spec
    requires tcat(this_) == Array || tcat(this_) == Pointer || tcat(this_) == Container
    ensures forall|d: TyRef| #[trigger] r.has(d) == dep(this_, d)
//@end
//@fn Compound_dependsOn this=TyRef file=typelib/typemodel.cc class=Compound name=dependsOn
//@spec
    requires tcat(this_) == Compound
    ensures forall|d: TyRef| #[trigger] r.has(d) == dep(this_, d)
//@loop 1
invariant it.v == tfieldlist(this_), it.i <= tfields(this_).len(), forall|d: TyRef| #[trigger] result.has(d) == (exists|i: int| 0 <= i < it.i && (#[trigger] tfields(this_)[i]).m_type == d)
decreases tfields(this_).len() - it.i
//@end
// virtual call: an object of a category is of the class of that category
pub fn any_dependsOn(this_: TyRef) -> (r: TSet)
    ensures forall|d: TyRef| #[trigger] r.has(d) == dep(this_, d), forall|d: TyRef| #[trigger] dep(this_, d) ==> r.has(d)
{
    proof { axiom_cat(this_); }
    let c = this_.getCategory();
    if c == NullType { Type_dependsOn(this_) }
    else if c == Numeric { Numeric_dependsOn(this_) }
    else if c == Enum { Enum_dependsOn(this_) }
    else if c == Opaque { Opaque_dependsOn(this_) }
    else if c == Compound { Compound_dependsOn(this_) }
    else { Indirect_dependsOn(this_) }
}
//@fn Registry::reverseDepends_const file=typelib/registry.cc impl=impl~Registry class=Registry name=reverseDepends const=yes
//@attrs
#[verifier::allow_complex_invariants]
//@spec
    ensures forall|t: TyRef| #[trigger] r.has(t) == reaches(self.m_global, t, type_)
//@at entry
let ghost m = self.m_global;
let ghost d = type_;
proof { lemma_reach_self(m, d); }
//@loop 1
invariant m == self.m_global, d == type_,
    result.has(d) || queue.has(d),
    new_queue.v@.len() == 0,
    forall|t: TyRef| !#[trigger] new_queue.has(t),
    forall|t: TyRef| #[trigger] result.has(t) ==> reaches(m, t, d) && !queue.has(t),
    forall|t: TyRef| #[trigger] queue.has(t) ==> reaches(m, t, d) && (regd(m, t) || t == d),
    forall|t: TyRef, x: TyRef| regd(m, t) && result.has(x) && #[trigger] dep(t, x) ==> result.has(t) || queue.has(t),
decreases left(m, d, result)
//@at loop1.begin
let ghost result0 = result;
let ghost queue0 = queue;
//@loop 2
invariant m == self.m_global, d == type_, rit(regIt, m), end.m_iter.i == m.v@.len(), result == result0, queue == queue0,
    forall|t: TyRef| #[trigger] new_queue.has(t) ==> regd(m, t) && !result.has(t) && !queue.has(t) && exists|x: TyRef| queue.has(x) && dep(t, x),
    forall|j: int, x: TyRef| 0 <= j < regIt.m_iter.i && !isalias(m.v@[j]) && queue.has(x) && #[trigger] dep(m.v@[j].1.type_, x) ==> result.has(m.v@[j].1.type_) || queue.has(m.v@[j].1.type_) || new_queue.has(m.v@[j].1.type_)
decreases m.v@.len() - regIt.m_iter.i
//@at loop2.begin
let ghost i0 = regIt.m_iter.i as int;
let ghost tt = m.v@[i0].1.type_;
proof { assert(!isalias(m.v@[i0]) ==> regd(m, tt)); }
let ghost nq0 = new_queue;
//@loop 3
invariant_except_break new_queue == nq0, forall|k: int| 0 <= k < typeIt.i ==> !dep(tt, #[trigger] queue.v@[k]),
invariant typeIt.v == queue.v, typeIt.i <= queue.v@.len(), result == result0, queue == queue0, regIt.m_iter.i == i0, rit(regIt, m), i0 < m.v@.len(),
    !isalias(m.v@[i0]), regd(m, tt), tt == m.v@[i0].1.type_, t == tt, !result.has(tt), !queue.has(tt),
    forall|d: TyRef| #[trigger] dependencies.has(d) == dep(tt, d),
ensures
    forall|t: TyRef| nq0.has(t) ==> #[trigger] new_queue.has(t),
    forall|t: TyRef| #[trigger] new_queue.has(t) ==> nq0.has(t) || (t == tt && exists|x: TyRef| queue.has(x) && dep(tt, x)),
    new_queue.has(tt) || forall|x: TyRef| queue.has(x) ==> !#[trigger] dep(tt, x)
decreases queue.v@.len() - typeIt.i
//@at loop3.begin
proof { assert(queue.has(queue.v@[typeIt.i as int])); }
//@at loop3.after
//@at loop2.after
proof {
    if queue.v@.len() > 0 { let x = queue.v@[0]; assert(queue.has(x)); lemma_universe(m, d, x); }
    assert forall|t: TyRef, x: TyRef| regd(m, t) && queue.has(x) && #[trigger] dep(t, x) implies result.has(t) || queue.has(t) || new_queue.has(t) by {
        let j = choose|j: int| 0 <= j < m.v@.len() && (#[trigger] m.v@[j]).1.type_ == t && !isalias(m.v@[j]);
        assert(dep(m.v@[j].1.type_, x));
    }
    assert forall|t: TyRef| #[trigger] new_queue.has(t) implies reaches(m, t, d) by { let x = choose|x: TyRef| queue.has(x) && dep(t, x); lemma_reach_step(m, t, x, d); }
}
//@at call:set_insert_range#1.after
proof {
    assert forall|x: TyRef| #[trigger] result.has(x) == (result0.has(x) || queue0.has(x)) by {}
    let x = queue0.v@[0]; assert(queue0.has(x)); assert(!result0.has(x)); lemma_universe(m, d, x);
    lemma_left(m, d, result0, result, x);
}
//@at loop1.after
proof {
    assert forall|t: TyRef| !#[trigger] queue.has(t) by {}
    assert forall|t: TyRef| #[trigger] result.has(t) == reaches(m, t, d) by { if reaches(m, t, d) { lemma_closed_set(m, result, d, t); } }
}
//@end
//@fn Registry::reverseDepends file=typelib/registry.cc impl=impl~Registry class=Registry name=reverseDepends const=no self=&self
//@spec
    ensures forall|t: TyRef| #[trigger] r.has(t) == reaches(self.m_global, t, type_)
//@loop 1
invariant it.v == const_result.v, it.i <= const_result.v@.len(), forall|d: TyRef| #[trigger] const_result.has(d) == reaches(self.m_global, d, type_),
    forall|d: TyRef| #[trigger] result.has(d) == (exists|i: int| 0 <= i < it.i && #[trigger] const_result.v@[i] == d)
decreases const_result.v@.len() - it.i
//@at return
proof {
    assert forall|t: TyRef| #[trigger] result.has(t) == reaches(self.m_global, t, type_) by {
        if reaches(self.m_global, t, type_) { assert(const_result.has(t)); }
        if result.has(t) { assert(const_result.has(t)); }
    }
}
//@end
