//@include prelude.rs
//@include c14.rs
// ---- what resizing changes: the size of types and the offset of fields
#[verifier::external_body]
pub struct Phys { g: usize }
impl Phys {
    pub uninterp spec fn sz(self, t: TyRef) -> usize;
    pub uninterp spec fn off(self, t: TyRef, i: int) -> usize;
}
// ghost: how it was before the resize, and the sizes that are asked for
pub struct World { pub m: Phys, pub w0: Ghost<Phys>, pub x: Ghost<Ask> }
impl World {
    pub open spec fn sz(self, t: TyRef) -> usize { self.m.sz(t) }
    pub open spec fn off(self, t: TyRef, i: int) -> usize { self.m.off(t, i) }
    #[verifier::external_body]
    pub fn getSize(&self, t: TyRef) -> (r: usize) ensures r == self.sz(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn setSize(&mut self, t: TyRef, n: usize)
        ensures final(self).w0 == old(self).w0, final(self).x == old(self).x, final(self).sz(t) == n,
            forall|u: TyRef| u != t ==> #[trigger] final(self).sz(u) == old(self).sz(u), forall|u: TyRef, i: int| #[trigger] final(self).off(u, i) == old(self).off(u, i)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn getOffset(&self, f: FRef) -> (r: usize) ensures r == self.off(f.t, f.i as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn setOffset(&mut self, f: FRef, n: usize)
        ensures final(self).w0 == old(self).w0, final(self).x == old(self).x, final(self).off(f.t, f.i as int) == n,
            forall|u: TyRef, i: int| u != f.t || i != f.i ==> #[trigger] final(self).off(u, i) == old(self).off(u, i), forall|u: TyRef| #[trigger] final(self).sz(u) == old(self).sz(u)
    { unimplemented!() }
}
// fields are referred to by their type and position; their names and types do not change
pub struct FRef { pub t: TyRef, pub i: usize }
impl Copy for FRef {}
impl Clone for FRef { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
pub struct FList { pub v: Vec<FRef> }
pub uninterp spec fn ftype(t: TyRef, i: int) -> TyRef;
pub uninterp spec fn nf(t: TyRef) -> nat;
impl FRef {
    #[verifier::external_body]
    pub fn getType(self) -> (r: TyRef) ensures r == ftype(self.t, self.i as int) { unimplemented!() }
}
impl TyRef {
    #[verifier::external_body]
    pub fn fieldrefs(self) -> (r: FList) requires tcat(self) == Compound ensures r.v@.len() == nf(self), forall|i: int| 0 <= i < r.v@.len() ==> (#[trigger] r.v@[i]).t == self && r.v@[i].i == i { unimplemented!() }
}
// ---- machine arithmetic on sizes wraps around
pub open spec fn W() -> int { 0x1_0000_0000_0000_0000 }
#[verifier::external_body]
pub fn wadd(a: usize, b: usize) -> (r: usize) ensures r == (a + b) % W() { a.wrapping_add(b) }
#[verifier::external_body]
pub fn wsub(a: usize, b: usize) -> (r: usize) ensures r == (a - b) % W() { a.wrapping_sub(b) }
#[verifier::external_body]
pub fn wmul(a: usize, b: usize) -> (r: usize) ensures r == (a * b) % W() { a.wrapping_mul(b) }
pub proof fn lemma_wrap(a: int, b: int) ensures (a % W() + b) % W() == (a + b) % W(), (a + b % W()) % W() == (a + b) % W()
{ vstd::arithmetic::div_mod::lemma_add_mod_noop(a, b, W()); vstd::arithmetic::div_mod::lemma_add_mod_noop(a % W(), b, W()); vstd::arithmetic::div_mod::lemma_add_mod_noop(a, b % W(), W());
  vstd::arithmetic::div_mod::lemma_mod_twice(a, W()); vstd::arithmetic::div_mod::lemma_mod_twice(b, W()); }
pub proof fn lemma_small(a: int) requires 0 <= a < W() ensures a % W() == a { vstd::arithmetic::div_mod::lemma_small_mod(a as nat, W() as nat); }
// ---- what a type is by value comes strictly before it: values are finite (a type does not contain itself)
pub uninterp spec fn vrank(t: TyRef) -> nat;
pub type Ask = IMap<TyRef, usize>;
// the size a type should have, when the types in x get the sizes they are mapped to
pub open spec fn ns(w0: Phys, x: Ask, t: TyRef) -> int decreases vrank(t), nf(t) + 1
{
    if x.contains_key(t) { x[t] as int }
    else if tcat(t) == Array { if vrank(tind(t)) < vrank(t) { tdim(t) * ns(w0, x, tind(t)) } else { 0 } }
    else if tcat(t) == Compound { w0.sz(t) + nd(w0, x, t, nf(t) as int) }
    else { w0.sz(t) as int }
}
// by how much the first n fields grow
pub open spec fn nd(w0: Phys, x: Ask, t: TyRef, n: int) -> int decreases vrank(t), n
{ if n <= 0 || n > nf(t) { 0 } else { nd(w0, x, t, n - 1) + (if vrank(ftype(t, n - 1)) < vrank(t) { ns(w0, x, ftype(t, n - 1)) - w0.sz(ftype(t, n - 1)) } else { 0 }) } }
// only what is inside matters
pub open spec fn agree(x: Ask, y: Ask, k: nat) -> bool { forall|u: TyRef| vrank(u) < k ==> #[trigger] x.contains_key(u) == y.contains_key(u) && x[u] == y[u] }
pub proof fn lemma_agree(w0: Phys, x: Ask, y: Ask, k: nat, t: TyRef)
    requires agree(x, y, k), vrank(t) < k
    ensures ns(w0, x, t) == ns(w0, y, t)
    decreases vrank(t), nf(t) + 1
{
    assert(x.contains_key(t) == y.contains_key(t));
    if x.contains_key(t) {}
    else if tcat(t) == Array { if vrank(tind(t)) < vrank(t) { lemma_agree(w0, x, y, k, tind(t)); } }
    else if tcat(t) == Compound { lemma_agree_nd(w0, x, y, k, t, nf(t) as int); }
}
pub proof fn lemma_agree_nd(w0: Phys, x: Ask, y: Ask, k: nat, t: TyRef, n: int)
    requires agree(x, y, k), vrank(t) <= k
    ensures nd(w0, x, t, n) == nd(w0, y, t, n)
    decreases vrank(t), n
{ if n > 0 && n <= nf(t) { lemma_agree_nd(w0, x, y, k, t, n - 1); if vrank(ftype(t, n - 1)) < vrank(t) { lemma_agree(w0, x, y, k, ftype(t, n - 1)); } } }
// ---- the types of the registry
pub open spec fn own(g: TMap, t: TyRef) -> bool { t.id != 0 && hit(g, tname(t)) == t }
pub open spec fn closed(g: TMap) -> bool {
    forall|t: TyRef| #[trigger] own(g, t) ==>
        (tcat(t) == Array ==> own(g, tind(t)) && vrank(tind(t)) < vrank(t))
        && (tcat(t) == Compound ==> forall|i: int| 0 <= i < nf(t) ==> own(g, #[trigger] ftype(t, i)) && vrank(ftype(t, i)) < vrank(t))
}
// nothing grows beyond what a machine word can count, and arrays are as long as their elements
pub open spec fn fit(w0: Phys, x: Ask, t: TyRef) -> bool {
    &&& 0 <= ns(w0, x, t) < W() && (tcat(t) == Array ==> w0.sz(t) == tdim(t) * w0.sz(tind(t)))
    &&& forall|i: int| 0 <= i < nf(t) && tcat(t) == Compound ==> 0 <= #[trigger] w0.off(t, i) + nd(w0, x, t, i) < W()
}
pub type Sizes = SMap<(usize, usize)>;
// t is as it was, and not in the table; or in the table, and as it should be
pub open spec fn good(w0: Phys, x: Ask, w: World, m: Sizes, t: TyRef) -> bool {
    &&& x.contains_key(t) ==> m.has(tname(t))
    &&& m.has(tname(t)) ==> m.at(tname(t)).0 == w0.sz(t) && w.sz(t) == ns(w0, x, t)
    &&& !m.has(tname(t)) ==> w.sz(t) == w0.sz(t)
    &&& !x.contains_key(t) && tcat(t) == Compound ==> forall|i: int| 0 <= i < nf(t) ==> #[trigger] w.off(t, i) == w0.off(t, i) + (if m.has(tname(t)) { nd(w0, x, t, i) } else { 0 })
}
pub open spec fn under(g: TMap, t: TyRef, u: TyRef) -> bool { own(g, u) && (vrank(u) < vrank(t) || u == t) }
pub open spec fn sub(g: TMap, t: TyRef, u: TyRef) -> bool { own(g, u) && vrank(u) < vrank(t) }
// nothing changes about a type
pub open spec fn still(v: World, w: World, t: TyRef) -> bool { w.sz(t) == v.sz(t) && forall|i: int| #[trigger] w.off(t, i) == v.off(t, i) }
pub open spec fn zpre(r: Registry, w: World, m: Sizes, t: TyRef) -> bool {
    &&& r.m_current.ok() && m.ok() && own(r.m_current, t) && closed(r.m_current)
    &&& forall|u: TyRef| #[trigger] under(r.m_current, t, u) ==> good(w.w0@, w.x@, w, m, u) && fit(w.w0@, w.x@, u)
}
// only what t is made of has changed, and only in one way
pub open spec fn frame(g: TMap, v: World, w: World, m: Sizes, z: Sizes, t: TyRef) -> bool {
    &&& z.ok() && w.w0 == v.w0 && w.x == v.x
    &&& forall|k: Seq<u8>| #[trigger] m.has(k) ==> z.has(k) && z.at(k) == m.at(k)
    &&& forall|u: TyRef| own(g, u) && !under(g, t, u) ==> #[trigger] still(v, w, u) && z.has(tname(u)) == m.has(tname(u))
    &&& forall|u: TyRef| v.x@.contains_key(u) ==> #[trigger] still(v, w, u)
}
// left alone, and rightly so
pub open spec fn settled(w0: Phys, x: Ask, t: TyRef) -> bool { ns(w0, x, t) == w0.sz(t) && forall|i: int| tcat(t) == Compound && 0 <= i <= nf(t) ==> #[trigger] nd(w0, x, t, i) == 0 }
pub open spec fn zpost(r: Registry, v: World, w: World, m: Sizes, z: Sizes, t: TyRef) -> bool {
    &&& frame(r.m_current, v, w, m, z, t)
    &&& forall|u: TyRef| #[trigger] under(r.m_current, t, u) ==> good(w.w0@, w.x@, w, z, u)
}
// a type that is not in the table: it is as it should be afterwards, or needs no change
pub open spec fn dpre(r: Registry, w: World, m: Sizes, t: TyRef) -> bool { zpre(r, w, m, t) && !m.has(tname(t)) }
pub open spec fn dpost(r: Registry, v: World, w: World, m: Sizes, z: Sizes, t: TyRef, res: bool) -> bool {
    &&& frame(r.m_current, v, w, m, z, t) && !z.has(tname(t))
    &&& forall|u: TyRef| #[trigger] sub(r.m_current, t, u) ==> good(w.w0@, w.x@, w, z, u)
    &&& res ==> w.sz(t) == ns(w.w0@, w.x@, t) && forall|i: int| 0 <= i < nf(t) && tcat(t) == Compound ==> #[trigger] w.off(t, i) == w.w0@.off(t, i) + nd(w.w0@, w.x@, t, i)
    &&& !res ==> settled(w.w0@, w.x@, t) && still(v, w, t)
}
pub proof fn lemma_other(g: TMap, t: TyRef, u: TyRef) requires own(g, t), own(g, u), t != u ensures tname(t) != tname(u) {}
pub proof fn lemma_own(g: TMap, t: TyRef, u: TyRef) requires own(g, t), own(g, u), tname(t) == tname(u) ensures t == u {}
// a step on something inside is a step on the whole
pub proof fn lemma_frame(r: Registry, a: World, b: World, c: World, m: Sizes, y: Sizes, z: Sizes, t: TyRef, f: TyRef)
    requires frame(r.m_current, a, b, m, y, t), zpost(r, b, c, y, z, f), sub(r.m_current, t, f), own(r.m_current, t),
        forall|u: TyRef| #[trigger] sub(r.m_current, t, u) ==> good(b.w0@, b.x@, b, y, u)
    ensures frame(r.m_current, a, c, m, z, t), still(b, c, t), z.has(tname(t)) == y.has(tname(t)),
        forall|u: TyRef| #[trigger] sub(r.m_current, t, u) ==> good(c.w0@, c.x@, c, z, u)
{
    let g = r.m_current;
    assert(own(g, t) && !under(g, f, t));
    assert(still(b, c, t));
    assert forall|u: TyRef| own(g, u) && !under(g, t, u) implies #[trigger] still(a, c, u) && z.has(tname(u)) == m.has(tname(u)) by {
        assert(!under(g, f, u)); assert(still(a, b, u)); assert(still(b, c, u));
    }
    assert forall|u: TyRef| a.x@.contains_key(u) implies #[trigger] still(a, c, u) by { assert(still(a, b, u)); assert(still(b, c, u)); }
    assert forall|u: TyRef| #[trigger] sub(g, t, u) implies good(c.w0@, c.x@, c, z, u) by {
        if under(g, f, u) {} else { assert(still(b, c, u)); assert(good(b.w0@, b.x@, b, y, u)); if y.has(tname(u)) { assert(z.at(tname(u)) == y.at(tname(u))); } }
    }
    assert forall|k: Seq<u8>| #[trigger] m.has(k) implies z.has(k) && z.at(k) == m.at(k) by { assert(y.has(k)); }
}
//@fn Registry::get_t file=typelib/registry.cc impl=impl~Registry class=Registry name=get_ types=Type self=&self throws=yes
//@spec
    requires self.m_current.ok(), own(self.m_current, type_)
    ensures r == Ok::<TyRef, Ex>(type_)
//@end
//@fn Type_resize this=TyRef world=yes throws=yes shared=Registry file=typelib/typemodel.cc class=Type name=resize virtual=Type_resize overrides=Type
//@spec
    requires zpre(*registry, *old(w), *old(new_sizes), this_)
    ensures zpost(*registry, *old(w), *final(w), *old(new_sizes), *final(new_sizes), this_),
        r is Ok, r->Ok_0 == final(new_sizes).has(tname(this_)), !r->Ok_0 ==> settled(old(w).w0@, old(w).x@, this_)
    decreases vrank(this_), 2nat
//@at entry
let ghost m0 = *new_sizes;
let ghost v0 = *w;
proof { assert(good(w.w0@, w.x@, *w, m0, this_)) by { assert(under(registry.m_current, this_, this_)); } }
//@at call:any_do_resize#1.after
let ghost m1 = *new_sizes;
//@at return
proof {
    let g = registry.m_current;
    let z = *new_sizes;
    assert forall|u: TyRef| #[trigger] under(g, this_, u) implies good(w.w0@, w.x@, *w, z, u) by {
        if m0.has(tname(this_)) {} else { if u != this_ { assert(sub(g, this_, u)); lemma_other(g, this_, u); } }
    }
    assert forall|u: TyRef| own(g, u) && !under(g, this_, u) implies #[trigger] still(v0, *w, u) && z.has(tname(u)) == m0.has(tname(u)) by { if u != this_ { lemma_other(g, this_, u); } }
}
//@end
//@fn Type_do_resize this=TyRef world=yes throws=yes shared=Registry file=typelib/typemodel.cc class=Type name=do_resize virtual=any_do_resize overrides=Type,Indirect,Array,Compound
//@spec
    requires dpre(*into, *old(w), *old(new_sizes), this_)
    ensures r == Ok::<bool, Ex>(false), *final(w) == *old(w), *final(new_sizes) == *old(new_sizes)
//@end
//@fn Indirect_do_resize this=TyRef world=yes throws=yes shared=Registry file=typelib/typemodel.cc class=Indirect name=do_resize
//@spec
    requires dpre(*registry, *old(w), *old(new_sizes), this_)
    ensures r == Ok::<bool, Ex>(false), *final(w) == *old(w), *final(new_sizes) == *old(new_sizes)
//@end
pub fn any_do_resize(this_: TyRef, w: &mut World, registry: &Registry, new_sizes: &mut Sizes) -> (r: Result<bool, Ex>)
    requires dpre(*registry, *old(w), *old(new_sizes), this_)
    ensures r is Ok, dpost(*registry, *old(w), *final(w), *old(new_sizes), *final(new_sizes), this_, r->Ok_0)
    decreases vrank(this_), 1nat
{
    proof {
        let g = registry.m_current;
        assert(under(g, this_, this_)); assert(good(w.w0@, w.x@, *w, *new_sizes, this_));
        assert forall|u: TyRef| #[trigger] sub(g, this_, u) implies good(w.w0@, w.x@, *w, *new_sizes, u) by { assert(under(g, this_, u)); }
    }
    let c = this_.getCategory();
    if c == Array { Array_do_resize(this_, w, registry, new_sizes) }
    else if c == Compound { Compound_do_resize(this_, w, registry, new_sizes) }
    else if c == Pointer || c == Container { Indirect_do_resize(this_, w, registry, new_sizes) }
    else { Type_do_resize(this_, w, registry, new_sizes) }
}
//@fn Array_do_resize this=TyRef world=yes throws=yes shared=Registry wrap=all file=typelib/typemodel.cc class=Array name=do_resize
//@spec
    requires dpre(*registry, *old(w), *old(new_sizes), this_), tcat(this_) == Array
    ensures r is Ok, dpost(*registry, *old(w), *final(w), *old(new_sizes), *final(new_sizes), this_, r->Ok_0)
    decreases vrank(this_), 0nat
//@at entry
let ghost m0 = *new_sizes;
let ghost v0 = *w;
let ghost r0 = *registry;
let ghost e = tind(this_);
proof {
    assert(under(r0.m_current, this_, this_)); assert(own(r0.m_current, e) && vrank(e) < vrank(this_)); assert(sub(r0.m_current, this_, e));
    assert forall|u: TyRef| #[trigger] sub(r0.m_current, this_, u) implies good(w.w0@, w.x@, *w, m0, u) by { assert(under(r0.m_current, this_, u)); }
    assert forall|u: TyRef| #[trigger] under(r0.m_current, e, u) implies good(w.w0@, w.x@, *w, m0, u) && fit(w.w0@, w.x@, u) by { assert(sub(r0.m_current, this_, u)); assert(under(r0.m_current, this_, u)); }
    assert(frame(r0.m_current, v0, v0, m0, m0, this_));
}
//@at call:Type_resize#1.after
let ghost w1 = *w;
proof {
    lemma_frame(r0, v0, v0, *w, m0, m0, *new_sizes, this_, e);
    assert(good(w.w0@, w.x@, *w, *new_sizes, e)) by { assert(under(r0.m_current, e, e)); }
    lemma_small(ns(w.w0@, w.x@, this_));
}
//@at return
proof {
    let g = r0.m_current;
    assert forall|u: TyRef| #[trigger] sub(g, this_, u) implies good(w.w0@, w.x@, *w, *new_sizes, u) by { assert(good(w1.w0@, w1.x@, w1, *new_sizes, u)); }
    assert forall|u: TyRef| own(g, u) && !under(g, this_, u) implies #[trigger] still(v0, *w, u) && new_sizes.has(tname(u)) == m0.has(tname(u)) by { assert(still(v0, w1, u)); }
    assert forall|u: TyRef| v0.x@.contains_key(u) implies #[trigger] still(v0, *w, u) by { assert(still(v0, w1, u)); }
}
//@end
//@fn Compound_do_resize this=TyRef world=yes throws=yes shared=Registry wrap=all file=typelib/typemodel.cc class=Compound name=do_resize
//@spec
    requires dpre(*registry, *old(w), *old(new_sizes), this_), tcat(this_) == Compound
    ensures r is Ok, dpost(*registry, *old(w), *final(w), *old(new_sizes), *final(new_sizes), this_, r->Ok_0)
    decreases vrank(this_), 0nat
//@at entry
let ghost m0 = *new_sizes;
let ghost v0 = *w;
let ghost mut w3 = *w;
let ghost r0 = *registry;
proof { assert(under(registry.m_current, this_, this_)); assert forall|u: TyRef| #[trigger] sub(r0.m_current, this_, u) implies good(w.w0@, w.x@, *w, m0, u) by { assert(under(r0.m_current, this_, u)); } }
//@loop 1
invariant it <= nf(this_), *registry == r0, !new_sizes.has(tname(this_)), frame(r0.m_current, v0, *w, m0, *new_sizes, this_),
    forall|u: TyRef| #[trigger] sub(r0.m_current, this_, u) ==> good(w.w0@, w.x@, *w, *new_sizes, u),
    w.sz(this_) == w.w0@.sz(this_),
    forall|i: int| 0 <= i < it ==> #[trigger] w.off(this_, i) == w.w0@.off(this_, i) + nd(w.w0@, w.x@, this_, i),
    forall|i: int| i < 0 || i >= it ==> #[trigger] w.off(this_, i) == v0.off(this_, i),
    global_offset == nd(w.w0@, w.x@, this_, it as int) % W(),
    !modified ==> forall|i: int| 0 <= i <= it ==> #[trigger] nd(w.w0@, w.x@, this_, i) == 0
decreases nf(this_) - it
//@at loop1.begin
let ghost i0 = it as int;
let ghost w1 = *w;
let ghost f = ftype(this_, i0);
let ghost d0 = nd(w.w0@, w.x@, this_, i0);
proof {
    assert(own(r0.m_current, f) && vrank(f) < vrank(this_));
    assert(sub(r0.m_current, this_, f));
    lemma_wrap(w1.off(this_, i0) as int, d0);
    assert(0 <= w.w0@.off(this_, i0) + d0 < W());
    lemma_small(w.w0@.off(this_, i0) + d0);
    assert(v0.off(this_, i0) == w.w0@.off(this_, i0)) by { assert(good(v0.w0@, v0.x@, v0, m0, this_)); }
}
//@at call:Type_resize#1.before
let ghost w2 = *w;
let ghost m2 = *new_sizes;
proof {
    assert forall|u: TyRef| #[trigger] sub(r0.m_current, this_, u) implies good(w.w0@, w.x@, *w, m2, u) by { assert(good(w1.w0@, w1.x@, w1, m2, u)); }
    assert forall|u: TyRef| own(r0.m_current, u) && !under(r0.m_current, this_, u) implies #[trigger] still(v0, *w, u) && m2.has(tname(u)) == m0.has(tname(u)) by { assert(still(v0, w1, u)); }
    assert forall|u: TyRef| v0.x@.contains_key(u) implies #[trigger] still(v0, *w, u) by { assert(still(v0, w1, u)); }
    assert forall|u: TyRef| #[trigger] under(r0.m_current, f, u) implies good(w.w0@, w.x@, *w, m2, u) && fit(w.w0@, w.x@, u) by { assert(sub(r0.m_current, this_, u)); assert(under(r0.m_current, this_, u)); }
}
//@at call:Type_resize#1.after
proof {
    lemma_frame(r0, v0, w2, *w, m0, m2, *new_sizes, this_, f);
    assert(good(w.w0@, w.x@, *w, *new_sizes, f)) by { assert(under(r0.m_current, f, f)); }
    lemma_wrap(d0, ns(w.w0@, w.x@, f) - w.w0@.sz(f));
    lemma_wrap(d0, (ns(w.w0@, w.x@, f) - w.w0@.sz(f)));
    assert(nd(w.w0@, w.x@, this_, i0 + 1) == d0 + ns(w.w0@, w.x@, f) - w.w0@.sz(f));
}
//@at loop1.end
proof { lemma_wrap(d0, (ns(w.w0@, w.x@, f) - w.w0@.sz(f))); }
//@at loop1.after
proof { w3 = *w;
    let n = nf(this_) as int;
    lemma_wrap(w.w0@.sz(this_) as int, nd(w.w0@, w.x@, this_, n));
    lemma_small(ns(w.w0@, w.x@, this_));
}
//@at return
proof {
    let g = r0.m_current;
    assert forall|u: TyRef| #[trigger] sub(g, this_, u) implies good(w.w0@, w.x@, *w, *new_sizes, u) by { assert(good(w3.w0@, w3.x@, w3, *new_sizes, u)); }
    assert forall|u: TyRef| own(g, u) && !under(g, this_, u) implies #[trigger] still(v0, *w, u) && new_sizes.has(tname(u)) == m0.has(tname(u)) by { assert(still(v0, w3, u)); }
    assert forall|u: TyRef| v0.x@.contains_key(u) implies #[trigger] still(v0, *w, u) by { assert(still(v0, w3, u)); }
}
//@end
impl SMap<(usize, usize)> {
    #[verifier::external_body]
    pub fn entry(&mut self, k: &Vec<u8>) -> (r: MX)
        requires old(self).ok()
        ensures final(self).ok(), r < final(self).v@.len(), final(self).v@[r as int].0@ == k@, final(self).ix(k@) == r,
            forall|x: Seq<u8>| #[trigger] final(self).has(x) == (old(self).has(x) || x == k@),
            old(self).has(k@) ==> *final(self) == *old(self),
            forall|x: Seq<u8>| old(self).has(x) ==> #[trigger] final(self).at(x) == old(self).at(x)
    { unimplemented!() }
}
#[verifier::external_body]
pub fn dup_smap_usize_usize(s: &Sizes) -> (r: Sizes) ensures r == *s { unimplemented!() }
// ---- the whole registry
pub open spec fn asked(g: TMap, s: SMap<usize>, t: TyRef, i: int) -> bool { 0 <= i < s.v@.len() && t.id != 0 && hit(g, s.v@[i].0@) == t }
pub open spec fn asks(g: TMap, s: SMap<usize>) -> Ask { IMap::new(|t: TyRef| exists|i: int| asked(g, s, t, i), |t: TyRef| s.v@[choose|i: int| asked(g, s, t, i)].1) }
// every type is registered under its own name
pub open spec fn canon(r: Registry) -> bool {
    &&& r.m_current.ok() && r.m_global.ok()
    &&& forall|k: Seq<u8>| r.m_current.has(k) && hit(r.m_current, k).id != 0 ==> own(r.m_current, #[trigger] hit(r.m_current, k))
    &&& forall|i: int| 0 <= i < r.m_global.v@.len() && !isalias(#[trigger] r.m_global.v@[i]) ==> own(r.m_current, r.m_global.v@[i].1.type_)
}
// each type is named once
pub open spec fn once(g: TMap, s: SMap<usize>) -> bool { s.ok() && forall|t: TyRef, i: int, j: int| #[trigger] asked(g, s, t, i) && #[trigger] asked(g, s, t, j) ==> i == j }
pub open spec fn fine(g: TMap, w0: Phys, x: Ask) -> bool { forall|u: TyRef| #[trigger] own(g, u) ==> fit(w0, x, u) && (x.contains_key(u) ==> fit(w0, x.remove(u), u)) }
// what is known about a type in between; p: the fields of a type that was asked for have been moved
pub open spec fn st(w0: Phys, x: Ask, w: World, m: Sizes, u: TyRef, p: bool) -> bool {
    &&& good(w0, x, w, m, u)
    &&& x.contains_key(u) && tcat(u) == Compound ==> forall|i: int| 0 <= i < nf(u) ==> #[trigger] w.off(u, i) == w0.off(u, i) + (if p { nd(w0, x, u, i) } else { 0 })
}
// as it should be
pub open spec fn resized(w0: Phys, x: Ask, w: World, u: TyRef) -> bool { w.sz(u) == ns(w0, x, u) && (tcat(u) == Compound ==> forall|i: int| 0 <= i < nf(u) ==> #[trigger] w.off(u, i) == w0.off(u, i) + nd(w0, x, u, i)) }
//@fn Registry::resize self=&self world=yes throws=yes file=typelib/registry.cc impl=impl~Registry class=Registry
//@spec
    requires canon(*self), closed(self.m_current), once(self.m_current, *new_sizes), fine(self.m_current, old(w).m, asks(self.m_current, *new_sizes))
    ensures
        // unknown names are refused, and nothing changes
        r is Err <==> exists|i: int| 0 <= i < new_sizes.v@.len() && hit(self.m_current, (#[trigger] new_sizes.v@[i]).0@).id == 0,
        r is Err ==> *final(w) == *old(w),
        // every type has the size and the field offsets that follow from the sizes asked for
        r is Ok ==> forall|i: int| 0 <= i < self.m_global.v@.len() && !isalias(#[trigger] self.m_global.v@[i]) ==> resized(old(w).m, asks(self.m_current, *new_sizes), *final(w), self.m_global.v@[i].1.type_)
//@at entry
let ghost g = self.m_current;
let ghost w0 = w.m;
let ghost x = asks(self.m_current, *new_sizes);
//@loop 1
invariant *it.m == *new_sizes, it.i <= new_sizes.v@.len(), *w == *old(w), forall|i: int| 0 <= i < it.i ==> hit(self.m_current, (#[trigger] new_sizes.v@[i]).0@).id != 0
decreases new_sizes.v@.len() - it.i
//@at loop1.after
proof { w.w0@ = w0; w.x@ = x; }
//@loop 2
invariant *it.m == *new_sizes, it.i <= new_sizes.v@.len(), g == self.m_current, x == asks(g, *new_sizes), canon(*self), once(g, *new_sizes), w.w0@ == w0, w.x@ == x,
    forall|i: int| 0 <= i < new_sizes.v@.len() ==> hit(self.m_current, (#[trigger] new_sizes.v@[i]).0@).id != 0,
    two(g, *new_sizes, w0, x, *w, sizes, it.i as int)
decreases new_sizes.v@.len() - it.i
//@at loop2.begin
let ghost e = hit(g, new_sizes.v@[it.i as int].0@);
let ghost s1 = sizes;
let ghost w1 = *w;
proof { assert(g.has(new_sizes.v@[it.i as int].0@)); assert(own(g, e)); assert(asked(g, *new_sizes, e, it.i as int)); lemma_asks(g, *new_sizes, e, it.i as int); }
//@at loop2.end
proof {
    let i = it.i - 1;
    assert(!s1.has(tname(e))) by { if s1.has(tname(e)) { let j = choose|j: int| j < i && asked(g, *new_sizes, e, j); assert(asked(g, *new_sizes, e, j)); assert(i == j); } }
    sizes.lemma_at(sizes.ix(tname(e)));
    assert forall|u: TyRef| #[trigger] own(g, u) implies (sizes.has(tname(u)) <==> exists|j: int| j < it.i && asked(g, *new_sizes, u, j)) by {
        if u == e { assert(asked(g, *new_sizes, e, i)); }
        else {
            lemma_other(g, u, e);
            if sizes.has(tname(u)) { let j = choose|j: int| j < i && asked(g, *new_sizes, u, j); assert(asked(g, *new_sizes, u, j)); }
            if exists|j: int| j < it.i && asked(g, *new_sizes, u, j) { let j = choose|j: int| j < it.i && asked(g, *new_sizes, u, j); assert(asked(g, *new_sizes, u, j)); assert(j != i); }
        }
    }
    assert forall|u: TyRef| #[trigger] own(g, u) && sizes.has(tname(u)) implies sizes.at(tname(u)).0 == w0.sz(u) && w.sz(u) == x[u] by { if u != e { lemma_other(g, u, e); assert(w.sz(u) == w1.sz(u)); } }
    assert forall|u: TyRef| #[trigger] own(g, u) && !sizes.has(tname(u)) implies w.sz(u) == w0.sz(u) by { assert(u != e); assert(w.sz(u) == w1.sz(u)); }
    assert forall|k: Seq<u8>| #[trigger] sizes.has(k) implies own(g, hit(g, k)) && tname(hit(g, k)) == k by { if k != tname(e) { assert(s1.has(k)); } }
}
//@at loop2.after
proof {
    let n = new_sizes.v@.len() as int;
    assert forall|u: TyRef| #[trigger] own(g, u) implies st(w0, x, *w, sizes, u, false) && sizes.has(tname(u)) == x.contains_key(u) by {
        if x.contains_key(u) { let j = choose|j: int| asked(g, *new_sizes, u, j); assert(asked(g, *new_sizes, u, j)); }
        if sizes.has(tname(u)) { let j = choose|j: int| j < n && asked(g, *new_sizes, u, j); lemma_asks(g, *new_sizes, u, j); }
    }
}
//@loop 3
invariant *it.m == explicit_sizes, it.i <= explicit_sizes.v@.len(), explicit_sizes.ok(), sizes.ok(), g == self.m_current, canon(*self), closed(g), fine(g, w0, x), w.w0@ == w0, w.x@ == x,
    forall|u: TyRef| #[trigger] own(g, u) ==> explicit_sizes.has(tname(u)) == x.contains_key(u),
    forall|u: TyRef| #[trigger] own(g, u) && x.contains_key(u) ==> explicit_sizes.at(tname(u)).0 == w0.sz(u),
    forall|k: Seq<u8>| #[trigger] explicit_sizes.has(k) ==> own(g, hit(g, k)) && tname(hit(g, k)) == k,
    forall|u: TyRef| #[trigger] own(g, u) ==> st(w0, x, *w, sizes, u, explicit_sizes.ix(tname(u)) < it.i)
decreases explicit_sizes.v@.len() - it.i
//@at loop3.begin
let ghost i0 = it.i as int;
let ghost e = hit(g, explicit_sizes.v@[i0].0@);
let ghost y = x.remove(e);
let ghost s1 = sizes;
let ghost w1 = *w;
proof {
    explicit_sizes.lemma_at(i0);
    assert(explicit_sizes.has(explicit_sizes.v@[i0].0@));
    assert(own(g, e) && tname(e) == explicit_sizes.v@[i0].0@);
    assert(x.contains_key(e));
    assert(st(w0, x, *w, sizes, e, false));
}
//@at call:Type_resize#1.before
let ghost s2 = sizes;
let ghost w2 = *w;
proof {
    w.x@ = y;
    assert(agree(x, y, vrank(e)));
    assert forall|u: TyRef| #[trigger] under(g, e, u) implies good(w0, y, *w, s2, u) && fit(w0, y, u) by {
        if u == e {
            assert(fit(w0, x, e));
            assert forall|i: int| #[trigger] w.off(e, i) == w1.off(e, i) by { assert(w2.off(e, i) == w1.off(e, i)); }
        } else {
            lemma_other(g, u, e);
            lemma_agree(w0, x, y, vrank(e), u);
            assert forall|n: int| nd(w0, x, u, n) == #[trigger] nd(w0, y, u, n) by { lemma_agree_nd(w0, x, y, vrank(e), u, n); }
            assert(fit(w0, x, u));
            assert forall|i: int| 0 <= i < nf(u) && tcat(u) == Compound implies 0 <= #[trigger] w0.off(u, i) + nd(w0, y, u, i) < W() by { assert(nd(w0, x, u, i) == nd(w0, y, u, i)); }
            if tcat(u) == Array { assert(own(g, tind(u))); lemma_agree(w0, x, y, vrank(e), tind(u)); }
            assert(st(w0, x, w1, s1, u, explicit_sizes.ix(tname(u)) < i0));
            assert(s2.has(tname(u)) == s1.has(tname(u)));
            if s1.has(tname(u)) { assert(s2.at(tname(u)) == s1.at(tname(u))); }
            assert(w.sz(u) == w1.sz(u)) by { assert(w2.sz(u) == w1.sz(u)); }
            assert forall|i: int| #[trigger] w.off(u, i) == w1.off(u, i) by { assert(w2.off(u, i) == w1.off(u, i)); }
        }
    }
}
let ghost w3 = *w;
//@at call:Type_resize#1.after
let ghost w4 = *w;
let ghost s4 = sizes;
proof {
    w.x@ = x;
    assert(under(g, e, e)); assert(good(w0, y, w4, s4, e));
    assert forall|n: int| nd(w0, x, e, n) == #[trigger] nd(w0, y, e, n) by { lemma_agree_nd(w0, x, y, vrank(e), e, n); }
}
//@at call:map_entry#1.after
let ghost s7 = sizes;
//@at loop3.end
proof {
    sizes.lemma_same_keys(s7);
    assert(x[e] == w.sz(e));
    assert forall|u: TyRef| #[trigger] own(g, u) implies st(w0, x, *w, sizes, u, explicit_sizes.ix(tname(u)) < it.i) by {
        if u == e {
            assert forall|i: int| 0 <= i < nf(e) && tcat(e) == Compound implies #[trigger] w.off(e, i) == w0.off(e, i) + nd(w0, x, e, i) by { assert(w.off(e, i) == w4.off(e, i)); assert(nd(w0, x, e, i) == nd(w0, y, e, i)); }
        } else {
            lemma_other(g, u, e);
            let p = explicit_sizes.ix(tname(u)) < i0;
            assert(st(w0, x, w1, s1, u, p));
            assert(x.contains_key(u) ==> explicit_sizes.ix(tname(u)) != i0) by { if x.contains_key(u) { assert(explicit_sizes.has(tname(u))); assert(explicit_sizes.v@[explicit_sizes.ix(tname(u))].0@ == tname(u)); } }
            assert(sizes.has(tname(u)) == s4.has(tname(u)));
            if s4.has(tname(u)) { assert(sizes.at(tname(u)) == s4.at(tname(u))); }
            assert(s2.has(tname(u)) == s1.has(tname(u)));
            if s1.has(tname(u)) { assert(s2.at(tname(u)) == s1.at(tname(u))); assert(s4.at(tname(u)) == s2.at(tname(u))); }
            assert(w.sz(u) == w4.sz(u)); assert forall|i: int| #[trigger] w.off(u, i) == w4.off(u, i) by {}
            assert(w2.sz(u) == w1.sz(u)); assert(w3.sz(u) == w1.sz(u)); assert forall|i: int| #[trigger] w3.off(u, i) == w1.off(u, i) by { assert(w2.off(u, i) == w1.off(u, i)); }
            if x.contains_key(u) { assert(y.contains_key(u)); assert(still(w3, w4, u)); }
            if under(g, e, u) {
                assert(good(w0, y, w4, s4, u));
                lemma_agree(w0, x, y, vrank(e), u);
                assert forall|n: int| nd(w0, x, u, n) == #[trigger] nd(w0, y, u, n) by { lemma_agree_nd(w0, x, y, vrank(e), u, n); }
                assert(good(w0, x, *w, sizes, u)) by {
                    assert forall|i: int| 0 <= i < nf(u) && tcat(u) == Compound && !x.contains_key(u) implies #[trigger] w.off(u, i) == w0.off(u, i) + (if sizes.has(tname(u)) { nd(w0, x, u, i) } else { 0 }) by { assert(w.off(u, i) == w4.off(u, i)); assert(nd(w0, x, u, i) == nd(w0, y, u, i)); }
                }
            } else { assert(still(w3, w4, u)); assert(s4.has(tname(u)) == s2.has(tname(u))); }
            assert(st(w0, x, *w, sizes, u, p));
        }
    }
}
//@loop 4
invariant rit(it, self.m_global), sizes.ok(), g == self.m_current, canon(*self), closed(g), fine(g, w0, x), w.w0@ == w0, w.x@ == x,
    forall|u: TyRef| #[trigger] own(g, u) ==> st(w0, x, *w, sizes, u, true),
    forall|i: int| 0 <= i < it.m_iter.i && !isalias(#[trigger] self.m_global.v@[i]) ==> sizes.has(tname(self.m_global.v@[i].1.type_)) || settled(w0, x, self.m_global.v@[i].1.type_)
decreases self.m_global.v@.len() - it.m_iter.i
//@at loop4.begin
let ghost w5 = *w;
let ghost s5 = sizes;
let ghost i5 = it.m_iter.i as int;
//@at call:Type_resize#2.before
let ghost e = self.m_global.v@[i5].1.type_;
proof { assert(own(g, e)); assert forall|u: TyRef| #[trigger] under(g, e, u) implies good(w0, x, *w, sizes, u) && fit(w0, x, u) by { assert(st(w0, x, *w, sizes, u, true)); } }
//@at call:Type_resize#2.after
proof {
    assert forall|u: TyRef| #[trigger] own(g, u) implies st(w0, x, *w, sizes, u, true) by {
        assert(st(w0, x, w5, s5, u, true));
        if x.contains_key(u) { assert(still(w5, *w, u)); }
        if under(g, e, u) { assert(good(w0, x, *w, sizes, u)); }
        else { assert(still(w5, *w, u)); if s5.has(tname(u)) { assert(sizes.at(tname(u)) == s5.at(tname(u))); } }
    }
    assert forall|i: int| 0 <= i < i5 + 1 && !isalias(#[trigger] self.m_global.v@[i]) implies sizes.has(tname(self.m_global.v@[i].1.type_)) || settled(w0, x, self.m_global.v@[i].1.type_) by {
        if i < i5 { if s5.has(tname(self.m_global.v@[i].1.type_)) {} }
    }
}
//@at end
proof {
    assert forall|i: int| 0 <= i < self.m_global.v@.len() && !isalias(#[trigger] self.m_global.v@[i]) implies resized(w0, x, *w, self.m_global.v@[i].1.type_) by {
        let u = self.m_global.v@[i].1.type_;
        assert(own(g, u)); assert(st(w0, x, *w, sizes, u, true));
    }
}
//@end
pub open spec fn two(g: TMap, s: SMap<usize>, w0: Phys, x: Ask, w: World, sizes: Sizes, n: int) -> bool {
    &&& sizes.ok()
    &&& forall|u: TyRef| #[trigger] own(g, u) ==> (sizes.has(tname(u)) <==> exists|i: int| i < n && asked(g, s, u, i))
    &&& forall|u: TyRef| #[trigger] own(g, u) && sizes.has(tname(u)) ==> sizes.at(tname(u)).0 == w0.sz(u) && w.sz(u) == x[u]
    &&& forall|u: TyRef| #[trigger] own(g, u) && !sizes.has(tname(u)) ==> w.sz(u) == w0.sz(u)
    &&& forall|k: Seq<u8>| #[trigger] sizes.has(k) ==> own(g, hit(g, k)) && tname(hit(g, k)) == k
    &&& forall|u: TyRef, i: int| #[trigger] w.off(u, i) == w0.off(u, i)
}
pub proof fn lemma_asks(g: TMap, s: SMap<usize>, t: TyRef, i: int)
    requires once(g, s), asked(g, s, t, i)
    ensures asks(g, s).contains_key(t), asks(g, s)[t] == s.v@[i].1
{ let j = choose|j: int| asked(g, s, t, j); assert(asked(g, s, t, j)); assert(i == j); }
