//@include prelude.rs
//@include tree.rs
// Comparison of types: the methods of Type and of its subclasses, receivers being handles.
pub fn handle_eq(a: usize, b: usize) -> (r: bool) ensures r == (a == b) { a == b }
pub proof fn lemma_handle(a: TyRef, b: TyRef) ensures (a.id == b.id) == (a == b) {}
pub uninterp spec fn tnum(t: TyRef) -> u32;
pub uninterp spec fn tfactory(t: TyRef) -> usize;
impl TyRef {
    #[verifier::external_body]
    pub fn getNumericCategory(self) -> (r: u32) requires tcat(self) == Numeric ensures r == tnum(self), r <= 11 { unimplemented!() }
    #[verifier::external_body]
    pub fn getFactory(self) -> (r: usize) requires tcat(self) == Container ensures r == tfactory(self) { unimplemented!() }
}
impl Field {
    #[verifier::external_body]
    pub fn getName(&self) -> (r: Vec<u8>) ensures r@ == self.m_name@ { unimplemented!() }
    #[verifier::external_body]
    pub fn getType(&self) -> (r: TyRef) ensures r == self.m_type { unimplemented!() }
}
// std::map's ==: the same keys with the same values
pub open spec fn vals_eq(a: SMap<i32>, b: SMap<i32>) -> bool { forall|k: Seq<u8>| #[trigger] a.has(k) == b.has(k) && (a.has(k) ==> a.at(k) == b.at(k)) }
pub open spec fn vals_sub(a: SMap<i32>, b: SMap<i32>) -> bool { forall|k: Seq<u8>| #[trigger] a.has(k) ==> b.has(k) && a.at(k) == b.at(k) }
#[verifier::external_body]
pub fn smap_eq(a: &SMap<i32>, b: &SMap<i32>) -> (r: bool) ensures r == vals_eq(*a, *b) { unimplemented!() }
// the maps of values are maps (class invariant of std::map), and have as many keys as entries
#[verifier::external_body]
pub proof fn axiom_vals(t: TyRef) requires tcat(t) == Enum ensures tvals(t).ok() {}
#[verifier::external_body]
pub proof fn axiom_cat(t: TyRef) ensures tcat(t) <= 7 {}
// a map that contains another one has at least as many entries
pub proof fn lemma_sub_size(a: SMap<i32>, b: SMap<i32>)
    requires a.ok(), b.ok(), vals_sub(a, b)
    ensures a.v@.len() <= b.v@.len()
{
    let n = a.v@.len();
    let ka = a.v@.map_values(|e: (Vec<u8>, i32)| e.0@);
    let kb = b.v@.map_values(|e: (Vec<u8>, i32)| e.0@);
    assert(ka.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < ka.len() && 0 <= j < ka.len() && i != j implies ka[i] != ka[j] by { if i < j { assert(a.v@[i].0@ != a.v@[j].0@); } else { assert(a.v@[j].0@ != a.v@[i].0@); } } }
    assert(kb.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < kb.len() && 0 <= j < kb.len() && i != j implies kb[i] != kb[j] by { if i < j { assert(b.v@[i].0@ != b.v@[j].0@); } else { assert(b.v@[j].0@ != b.v@[i].0@); } } }
    ka.unique_seq_to_set();
    kb.unique_seq_to_set();
    assert(ka.to_set().subset_of(kb.to_set())) by {
        assert forall|k: Seq<u8>| ka.to_set().contains(k) implies kb.to_set().contains(k) by {
            let i = choose|i: int| 0 <= i < ka.len() && ka[i] == k;
            assert(a.v@[i].0@ == k);
            assert(a.has(k));
            let j = b.ix(k);
            assert(kb[j] == k);
        }
    }
    vstd::set_lib::lemma_len_subset(ka.to_set(), kb.to_set());
}
// the pairs of types being compared, with the equality flag
pub type Tri = ((TyRef, TyRef), bool);
pub struct CStk { pub s: Ghost<Set<Tri>> }
impl CStk {
    #[verifier::external_body]
    pub fn new() -> (r: CStk) ensures r.s@ == Set::<Tri>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, q: Tri) -> (r: (MX, bool)) ensures r.1 == !old(self).s@.contains(q), final(self).s@ == old(self).s@.insert(q) { unimplemented!() }
}
// what is compared at one pair of types, apart from what the types refer to
pub open spec fn base_ok(l: TyRef, r: TyRef) -> bool { tsize(l) == tsize(r) && tcat(l) == tcat(r) }
pub open spec fn flds_ok(l: TyRef, r: TyRef) -> bool {
    tfields(l).len() == tfields(r).len() && forall|i: int| 0 <= i < tfields(l).len() ==> (#[trigger] tfields(l)[i]).m_name@ == tfields(r)[i].m_name@ && tfields(l)[i].m_offset == tfields(r)[i].m_offset
}
pub open spec fn lok(l: TyRef, r: TyRef, e: bool) -> bool {
    if tcat(l) == Compound { tcat(r) == Compound && (e ==> base_ok(l, r)) && flds_ok(l, r) }
    else {
        base_ok(l, r)
        && (tcat(l) == NullType || tcat(l) == Opaque ==> tname(l) == tname(r))
        && (tcat(l) == Numeric ==> tnum(l) == tnum(r))
        && (tcat(l) == Enum ==> if e { vals_eq(tvals(l), tvals(r)) } else { vals_sub(tvals(l), tvals(r)) })
        && (tcat(l) == Array ==> tdim(l) == tdim(r))
        && (tcat(l) == Container ==> tfactory(l) == tfactory(r))
    }
}
pub open spec fn nkids(l: TyRef) -> int { if tcat(l) == Compound { tfields(l).len() as int } else if tcat(l) == Array || tcat(l) == Pointer || tcat(l) == Container { 1 } else { 0 } }
pub open spec fn kid(c: u32, t: TyRef, i: int) -> TyRef { if c == Compound { tfields(t)[i].m_type } else { tind(t) } }
pub open spec fn kflag(l: TyRef, e: bool) -> bool { e || tcat(l) == Array || tcat(l) == Container }
pub open spec fn kidq(q: Tri, i: int) -> Tri { ((kid(tcat(q.0.0), q.0.0, i), kid(tcat(q.0.0), q.0.1, i)), kflag(q.0.0, q.1)) }
pub open spec fn inp(P: spec_fn(Tri) -> bool, q: Tri) -> bool { q.0.0 == q.0.1 || P(q) }
pub open spec fn good(P: spec_fn(Tri) -> bool, q: Tri) -> bool {
    lok(q.0.0, q.0.1, q.1) && forall|i: int| 0 <= i < nkids(q.0.0) ==> inp(P, #[trigger] kidq(q, i))
}
// a relation between types that no comparison can refute
pub open spec fn bisim(P: spec_fn(Tri) -> bool) -> bool { forall|q: Tri| #[trigger] P(q) ==> q.0.0 == q.0.1 || good(P, q) }
// the types have the same structure
pub open spec fn same(q: Tri) -> bool { q.0.0 == q.0.1 || exists|P: spec_fn(Tri) -> bool| #[trigger] bisim(P) && P(q) }
pub open spec fn member(S: Set<Tri>) -> spec_fn(Tri) -> bool { |q: Tri| S.contains(q) }
pub proof fn lemma_same_unfold(q: Tri)
    requires same(q), q.0.0 != q.0.1
    ensures lok(q.0.0, q.0.1, q.1), forall|i: int| 0 <= i < nkids(q.0.0) ==> same(#[trigger] kidq(q, i))
{
    let P = choose|P: spec_fn(Tri) -> bool| #[trigger] bisim(P) && P(q);
    assert(good(P, q));
    assert forall|i: int| 0 <= i < nkids(q.0.0) implies same(#[trigger] kidq(q, i)) by { assert(inp(P, kidq(q, i))); }
}
// the pairs added by a comparison that did not fail are explained by the pairs that are there afterwards
pub open spec fn added(a: Set<Tri>, b: Set<Tri>) -> bool { a.subset_of(b) && forall|q: Tri| b.contains(q) && !a.contains(q) ==> #[trigger] good(member(b), q) }
pub proof fn lemma_good_mono(a: Set<Tri>, b: Set<Tri>, q: Tri)
    requires good(member(a), q), a.subset_of(b)
    ensures good(member(b), q)
{
    assert forall|i: int| 0 <= i < nkids(q.0.0) implies inp(member(b), #[trigger] kidq(q, i)) by { assert(inp(member(a), kidq(q, i))); }
}
pub proof fn lemma_added_trans(a: Set<Tri>, b: Set<Tri>, c: Set<Tri>)
    requires added(a, b), added(b, c)
    ensures added(a, c)
{
    assert forall|q: Tri| c.contains(q) && !a.contains(q) implies #[trigger] good(member(c), q) by {
        if b.contains(q) { assert(good(member(b), q)); lemma_good_mono(b, c, q); }
    }
}
pub proof fn lemma_closed(s: Set<Tri>, q: Tri)
    requires added(Set::empty(), s), s.contains(q)
    ensures same(q)
{
    let P = member(s);
    assert(bisim(P)) by { assert forall|x: Tri| #[trigger] P(x) implies x.0.0 == x.0.1 || good(P, x) by { assert(s.contains(x)); assert(!Set::<Tri>::empty().contains(x)); } }
    assert(P(q));
}
// there are finitely many pairs: the comparison ends
pub open spec fn handle(i: int) -> TyRef { TyRef { id: i as usize } }
pub open spec fn handles() -> Set<TyRef> { vstd::set_lib::set_int_range(0, usize::MAX + 1).map(|i: int| handle(i)) }
pub open spec fn pairs_from(l: TyRef, e: bool) -> Set<Tri> { handles().map(|r: TyRef| ((l, r), e)) }
pub open spec fn all_pairs() -> Set<Tri> { handles().map(|l: TyRef| pairs_from(l, true)).flatten().union(handles().map(|l: TyRef| pairs_from(l, false)).flatten()) }
pub proof fn lemma_all(q: Tri) ensures all_pairs().contains(q)
{
    let (l, r, e) = (q.0.0, q.0.1, q.1);
    let ints = vstd::set_lib::set_int_range(0, usize::MAX + 1);
    assert(ints.contains(l.id as int) && handle(l.id as int) == l);
    assert(handles().contains(l));
    assert(ints.contains(r.id as int) && handle(r.id as int) == r);
    assert(handles().contains(r));
    assert(pairs_from(l, e).contains(q));
    let a = handles().map(|l: TyRef| pairs_from(l, true));
    let b = handles().map(|l: TyRef| pairs_from(l, false));
    if e { assert(a.contains(pairs_from(l, true))); assert(a.flatten().contains(q)); }
    else { assert(b.contains(pairs_from(l, false))); assert(b.flatten().contains(q)); }
}
pub open spec fn room(s: Set<Tri>) -> nat { all_pairs().difference(s).len() }
pub proof fn lemma_room(a: Set<Tri>, b: Set<Tri>)
    requires a.subset_of(b)
    ensures room(b) <= room(a), (exists|q: Tri| b.contains(q) && !a.contains(q)) ==> room(b) < room(a)
{
    let x = all_pairs().difference(b);
    let y = all_pairs().difference(a);
    assert(x.subset_of(y));
    vstd::set_lib::lemma_len_subset(x, y);
    if exists|q: Tri| b.contains(q) && !a.contains(q) {
        let q = choose|q: Tri| b.contains(q) && !a.contains(q);
        lemma_all(q);
        assert(y.contains(q) && !x.contains(q));
        assert(x.subset_of(y.remove(q)));
        vstd::set_lib::lemma_len_subset(x, y.remove(q));
    }
}
pub open spec fn cmp_post(q: Tri, r: bool, a: Set<Tri>, b: Set<Tri>) -> bool {
    a.subset_of(b) && (r ==> good(member(b), q) && added(a, b)) && (!r ==> q.0.0 != q.0.1 ==> !same(q))
}
//@fn ty_isSame this=TyRef file=typelib/typemodel.cc class=Type name=isSame
//@spec
    ensures r == same(((this_, with), true))
//@at entry
proof { lemma_handle(this_, with); }
//@at call:ty_rec_compare#1.after
proof { if $ret && this_ != with { lemma_closed(stack.s@, ((this_, with), true)); } }
//@end
//@fn ty_canCastTo this=TyRef file=typelib/typemodel.cc class=Type name=canCastTo
//@spec
    ensures r == same(((this_, with), false))
//@at entry
proof { lemma_handle(this_, with); }
//@at call:ty_rec_compare#1.after
proof { if $ret && this_ != with { lemma_closed(stack.s@, ((this_, with), false)); } }
//@end
//@fn ty_rec_compare this=TyRef file=typelib/typemodel.cc class=Type name=rec_compare
//@spec
    ensures
        old(stack).s@.subset_of(final(stack).s@),
        r ==> added(old(stack).s@, final(stack).s@) && inp(member(final(stack).s@), ((left, right), equality)),
        !r ==> !same(((left, right), equality))
    decreases room(old(stack).s@), 0nat
//@at entry
proof { lemma_handle(left, right); }
let ghost s0 = stack.s@;
let ghost q = ((left, right), equality);
//@at call:set_insert#1.after
proof { if !s0.contains(q) { assert(stack.s@.contains(q)); lemma_room(s0, stack.s@); } else { assert(stack.s@ =~= s0); } }
let ghost s1 = stack.s@;
//@at call:Type_do_compare#1.after
proof { if $ret {
    let s2 = stack.s@;
    assert(s2.contains(q));
    assert forall|x: Tri| s2.contains(x) && !s0.contains(x) implies #[trigger] good(member(s2), x) by { if x != q { assert(!s1.contains(x)); } }
} }
//@end
//@fn Type_do_compare this=TyRef virtual=any_do_compare overrides=Type,NullType,OpaqueType,Numeric,Indirect,Compound,Enum,Array,Container file=typelib/typemodel.cc class=Type name=do_compare
//@spec
    ensures r == base_ok(this_, other), final(stack).s@ == old(stack).s@
//@end
//@fn NullType_do_compare this=TyRef file=typelib/typemodel.cc class=NullType name=do_compare
//@spec
    requires tcat(this_) == NullType
    ensures cmp_post(((this_, other), equality), r, old(stack).s@, final(stack).s@)
//@at entry
proof { lemma_same_cases(((this_, other), equality)); }
//@end
//@fn OpaqueType_do_compare this=TyRef file=typelib/typemodel.cc class=OpaqueType name=do_compare
//@spec
    requires tcat(this_) == Opaque
    ensures cmp_post(((this_, other), equality), r, old(stack).s@, final(stack).s@)
//@at entry
proof { lemma_same_cases(((this_, other), equality)); }
//@end
//@fn Numeric_do_compare this=TyRef file=typelib/typemodel.cc class=Numeric name=do_compare
//@spec
    requires tcat(this_) == Numeric
    ensures cmp_post(((this_, type_), equality), r, old(stack).s@, final(stack).s@)
//@at entry
proof { lemma_same_cases(((this_, type_), equality)); }
//@end
//@fn Enum_do_compare this=TyRef file=typelib/typemodel.cc class=Enum name=do_compare
//@spec
    requires tcat(this_) == Enum
    ensures cmp_post(((this_, type_), equality), r, old(stack).s@, final(stack).s@)
//@at entry
proof { lemma_same_cases(((this_, type_), equality)); axiom_vals(this_); if tcat(type_) == Enum { axiom_vals(type_); if vals_sub(tvals(this_), tvals(type_)) { lemma_sub_size(tvals(this_), tvals(type_)); } } }
//@loop 1
invariant it.m == tvals(this_), 0 <= it.i <= it.m.v@.len(), base_ok(this_, type_), !equality, tvals(this_).ok(), tvals(type_).ok(),
    forall|j: int| 0 <= j < it.i ==> tvals(type_).has((#[trigger] tvals(this_).v@[j]).0@) && tvals(type_).at(tvals(this_).v@[j].0@) == tvals(this_).v@[j].1
decreases tvals(this_).v@.len() - it.i
//@at loop1.begin
proof { let k = tvals(this_).v@[it.i as int].0@; tvals(this_).lemma_at(it.i as int); if tvals(type_).has(k) { tvals(type_).lemma_at(tvals(type_).ix(k)); } }
//@end
//@fn Indirect_do_compare this=TyRef file=typelib/typemodel.cc class=Indirect name=do_compare
//@spec
    requires tcat(this_) == Array || tcat(this_) == Pointer || tcat(this_) == Container
    ensures
        old(stack).s@.subset_of(final(stack).s@),
        r ==> base_ok(this_, type_) && added(old(stack).s@, final(stack).s@) && inp(member(final(stack).s@), ((tind(this_), tind(type_)), equality)),
        !r ==> !base_ok(this_, type_) || !same(((tind(this_), tind(type_)), equality))
    decreases room(old(stack).s@), 1nat
//@end
//@fn Array_do_compare this=TyRef file=typelib/typemodel.cc class=Array name=do_compare
//@spec
    requires tcat(this_) == Array
    ensures cmp_post(((this_, type_), equality), r, old(stack).s@, final(stack).s@)
    decreases room(old(stack).s@), 2nat
//@at entry
proof { lemma_same_cases(((this_, type_), equality)); }
//@end
//@fn Container_do_compare this=TyRef file=typelib/typemodel.cc class=Container name=do_compare
//@spec
    requires tcat(this_) == Container
    ensures cmp_post(((this_, other), equality), r, old(stack).s@, final(stack).s@)
    decreases room(old(stack).s@), 2nat
//@at entry
proof { lemma_same_cases(((this_, other), equality)); }
//@end
//@fn Compound_do_compare this=TyRef file=typelib/typemodel.cc class=Compound name=do_compare
//@spec
    requires tcat(this_) == Compound
    ensures cmp_post(((this_, type_), equality), r, old(stack).s@, final(stack).s@)
    decreases room(old(stack).s@), 2nat
//@at entry
proof { lemma_same_cases(((this_, type_), equality)); }
let ghost s0 = stack.s@;
let ghost q = ((this_, type_), equality);
//@loop 1
invariant left_it.v == tfieldlist(this_), left_end.v == tfieldlist(this_), right_it.v == tfieldlist(type_), right_it.i == left_it.i, left_it.i <= left_end.i, left_end.i == tfields(this_).len(), tfields(this_).len() == tfields(type_).len(),
    tcat(type_) == Compound, equality ==> base_ok(this_, type_), added(s0, stack.s@), s0.subset_of(stack.s@),
    forall|i: int| 0 <= i < left_it.i ==> (#[trigger] tfields(this_)[i]).m_name@ == tfields(type_)[i].m_name@ && tfields(this_)[i].m_offset == tfields(type_)[i].m_offset,
    forall|i: int| 0 <= i < left_it.i ==> inp(member(stack.s@), #[trigger] kidq(q, i))
decreases tfields(this_).len() - left_it.i
//@at loop1.begin
let ghost s1 = stack.s@;
let ghost k = left_it.i as int;
let ghost fl = tfields(this_)[k];
let ghost fr = tfields(type_)[k];
proof { lemma_room(s0, s1); lemma_same_cases(((this_, type_), equality)); }
//@at call:ty_rec_compare#1.before
proof { assert(kidq(q, k) == ((fl.m_type, fr.m_type), equality)); }
//@at call:ty_rec_compare#1.after
proof { if $ret { lemma_added_trans(s0, s1, stack.s@);
   assert forall|i: int| 0 <= i < k + 1 implies inp(member(stack.s@), #[trigger] kidq(q, i)) by { if i < k { assert(inp(member(s1), kidq(q, i))); } }
 } else if same(q) && this_ != type_ { assert(same(kidq(q, k))); } }
//@end
// virtual call: an object of a category is of the class of that category
pub fn any_do_compare(this_: TyRef, other: TyRef, equality: bool, stack: &mut CStk) -> (r: bool)
    ensures cmp_post(((this_, other), equality), r, old(stack).s@, final(stack).s@)
    decreases room(old(stack).s@), 3nat
{
    proof { axiom_cat(this_); }
    let c = this_.getCategory();
    if c == NullType { NullType_do_compare(this_, other, equality, stack) }
    else if c == Array { Array_do_compare(this_, other, equality, stack) }
    else if c == Pointer {
        let ghost s0 = stack.s@;
        proof { lemma_same_cases(((this_, other), equality)); }
        Indirect_do_compare(this_, other, equality, stack)
    }
    else if c == Numeric { Numeric_do_compare(this_, other, equality, stack) }
    else if c == Enum { Enum_do_compare(this_, other, equality, stack) }
    else if c == Compound { Compound_do_compare(this_, other, equality, stack) }
    else if c == Opaque { OpaqueType_do_compare(this_, other, equality, stack) }
    else { Container_do_compare(this_, other, equality, stack) }
}
pub proof fn lemma_same_cases(q: Tri)
    ensures
        q.0.0 != q.0.1 && same(q) ==> lok(q.0.0, q.0.1, q.1) && forall|i: int| 0 <= i < nkids(q.0.0) ==> same(#[trigger] kidq(q, i)),
        tcat(q.0.0) == Array || tcat(q.0.0) == Pointer || tcat(q.0.0) == Container ==> kidq(q, 0) == ((tind(q.0.0), tind(q.0.1)), kflag(q.0.0, q.1)),
        added(Set::empty(), Set::empty())
{
    if q.0.0 != q.0.1 && same(q) { lemma_same_unfold(q); }
    if tcat(q.0.0) == Array || tcat(q.0.0) == Pointer || tcat(q.0.0) == Container { assert(kidq(q, 0).0.0 == tind(q.0.0)); }
}
// ---- what the property says
pub proof fn theorem_reflexive(t: TyRef, e: bool) ensures same(((t, t), e)) {}
pub proof fn theorem_symmetric(l: TyRef, r: TyRef)
    requires same(((l, r), true))
    ensures same(((r, l), true))
{
    if l != r {
        let P = choose|P: spec_fn(Tri) -> bool| #[trigger] bisim(P) && P(((l, r), true));
        let Q = |q: Tri| q.1 && P(((q.0.1, q.0.0), true));
        assert forall|q: Tri| #[trigger] Q(q) implies q.0.0 == q.0.1 || good(Q, q) by {
            if q.0.0 != q.0.1 {
                let p = ((q.0.1, q.0.0), true);
                assert(P(p));
                assert(good(P, p));
                assert forall|i: int| 0 <= i < nkids(q.0.0) implies inp(Q, #[trigger] kidq(q, i)) by { assert(inp(P, kidq(p, i))); }
                assert(lok(q.0.0, q.0.1, true));
            }
        }
        assert(bisim(Q));
        assert(Q(((r, l), true)));
    }
}
pub proof fn theorem_castable(l: TyRef, r: TyRef)
    requires same(((l, r), true))
    ensures same(((l, r), false))
{
    if l != r {
        let P = choose|P: spec_fn(Tri) -> bool| #[trigger] bisim(P) && P(((l, r), true));
        let Q = |q: Tri| P(((q.0.0, q.0.1), true));
        assert forall|q: Tri| #[trigger] Q(q) implies q.0.0 == q.0.1 || good(Q, q) by {
            if q.0.0 != q.0.1 {
                let p = ((q.0.0, q.0.1), true);
                assert(P(p));
                assert(good(P, p));
                assert forall|i: int| 0 <= i < nkids(q.0.0) implies inp(Q, #[trigger] kidq(q, i)) by { assert(inp(P, kidq(p, i))); }
                assert(lok(q.0.0, q.0.1, q.1));
            }
        }
        assert(bisim(Q));
        assert(Q(((l, r), false)));
    }
}
pub proof fn theorem_transitive_types(a: TyRef, b: TyRef, c: TyRef)
    requires same(((a, b), true)), same(((b, c), true))
    ensures same(((a, c), true))
{
    if a != b && b != c {
        let P = choose|P: spec_fn(Tri) -> bool| #[trigger] bisim(P) && P(((a, b), true));
        let R = choose|R: spec_fn(Tri) -> bool| #[trigger] bisim(R) && R(((b, c), true));
        let Q = |q: Tri| q.1 && exists|m: TyRef| inp(P, ((q.0.0, m), true)) && #[trigger] inp(R, ((m, q.0.1), true));
        assert forall|q: Tri| #[trigger] Q(q) implies q.0.0 == q.0.1 || good(Q, q) by {
            if q.0.0 != q.0.1 {
                let m = choose|m: TyRef| inp(P, ((q.0.0, m), true)) && #[trigger] inp(R, ((m, q.0.1), true));
                let x = ((q.0.0, m), true);
                let y = ((m, q.0.1), true);
                assert(q.0.0 != m ==> good(P, x));
                assert(m != q.0.1 ==> good(R, y));
                assert(lok(q.0.0, q.0.1, true));
                assert forall|i: int| 0 <= i < nkids(q.0.0) implies inp(Q, #[trigger] kidq(q, i)) by {
                    let km = kid(tcat(m), m, i);
                    assert(q.0.0 != m ==> inp(P, kidq(x, i)));
                    assert(m != q.0.1 ==> inp(R, kidq(y, i)));
                    assert(inp(P, ((kidq(q, i).0.0, km), true)));
                    assert(inp(R, ((km, kidq(q, i).0.1), true)));
                }
            }
        }
        assert(bisim(Q));
        assert(inp(R, ((b, c), true)));
        assert(inp(P, ((a, b), true)));
        let q: Tri = ((a, c), true);
        assert(inp(P, ((q.0.0, b), true)) && inp(R, ((b, q.0.1), true)));
        assert(Q(q));
    }
}
