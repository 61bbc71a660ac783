//@include c14.rs
//@include pmap.rs
// ---- merging: what the target has stays; what it gets is what the source has
pub open spec fn kept(g: TMap, h: TMap) -> bool { forall|x: Seq<u8>| #[trigger] g.has(x) ==> h.has(x) && h.at(x).type_ == g.at(x).type_ }
// structural equality of types (Type::isSame, decided in the unit for C18)
pub uninterp spec fn tsame(a: TyRef, b: TyRef) -> bool;
//@fn Type_isSame this=TyRef file=typelib/typemodel.cc class=Type name=isSame params=t assumed=decided~by~the~unit~for~C18
//@spec
    ensures r == tsame(this_, t)
//@end
// t is merged into u: a definition that was there before is used, and only if it is the same
pub open spec fn fits(g0: TMap, t: TyRef, u: TyRef) -> bool { u.id != 0 && (g0.has(tname(t)) ==> u == g0.at(tname(t)).type_ && tsame(u, t)) }
// the types merged between two points are in the registry, all but the one being made
pub open spec fn grew(s: PMap, z: PMap, g: TMap, h: TMap, but: TyRef, b: TyRef) -> bool {
    &&& s.ok() && z.ok() && kept(g, h)
    &&& forall|t: TyRef| #[trigger] s.has(t) ==> z.has(t) && z.at(t) == s.at(t)
    &&& forall|t: TyRef| #[trigger] z.has(t) && !s.has(t) ==> fits(g, t, z.at(t)) && (held(h, z.at(t)) || (t == but && z.at(t) == b))
}
pub open spec fn none() -> TyRef { TyRef { id: 0 } }
// a merge that is over
pub open spec fn done(s: PMap, z: PMap, g: TMap, h: TMap) -> bool { grew(s, z, g, h, none(), none()) }
pub open spec fn nonull(s: PMap) -> bool { forall|t: TyRef| #[trigger] s.has(t) ==> t.id != 0 && s.at(t).id != 0 }
pub open spec fn mpre(r: Registry, s: PMap) -> bool { rinv(r) && s.ok() && nonull(s) }
pub open spec fn mpost(a: Registry, b: Registry) -> bool { rinv(b) && kept(a.m_global, b.m_global) && b.m_namespace == a.m_namespace }
pub proof fn lemma_grew(s: PMap, x: PMap, z: PMap, g: TMap, k: TMap, h: TMap, but: TyRef, b: TyRef)
    requires done(s, x, g, k), grew(x, z, k, h, but, b), nonull(x)
    ensures grew(s, z, g, h, but, b)
{
    assert forall|t: TyRef| #[trigger] z.has(t) && !s.has(t) implies fits(g, t, z.at(t)) && (held(h, z.at(t)) || (t == but && z.at(t) == b)) by {
        if x.has(t) { assert(z.at(t) == x.at(t)); assert(fits(g, t, x.at(t))); lemma_held(k, h, x.at(t)); }
        else { assert(fits(k, t, z.at(t))); if g.has(tname(t)) { assert(k.has(tname(t))); } }
    }
}
pub proof fn lemma_held(k: TMap, h: TMap, u: TyRef)
    requires kept(k, h), held(k, u)
    ensures held(h, u)
{ let y = choose|y: Seq<u8>| #[trigger] k.has(y) && k.at(y).type_ == u; assert(h.has(y)); }
// type names are absolute
#[verifier::external_body]
pub proof fn axiom_abs(t: TyRef) ensures tname(t).len() > 0, tname(t)[0] == 47, tname(t).len() < 0x7fff_fe00 {}
pub proof fn lemma_lookup(r: Registry, k: Seq<u8>)
    requires rinv(r), k.len() > 0, k[0] == 47
    ensures hit(r.m_current, k) == hit(r.m_global, k), r.m_global.has(k) ==> r.m_global.at(k).type_.id != 0
{
    let c = comps(r.m_namespace@);
    let n = c.len() as int;
    lemma_absolute(r.m_global, c, k, n);
    assert(binds(r.m_current, k, r.m_global, rname(r.m_global, c, k, n)));
    if r.m_global.has(k) { assert(r.m_global.v@[r.m_global.ix(k)].0@ == k); }
}
//@fn Type_try_merge this=TyRef file=typelib/typemodel.cc class=Type name=try_merge throws=yes
//@spec
    requires mpre(*old(registry), *old(stack)), this_.id != 0
    ensures *final(registry) == *old(registry), final(stack).ok(), nonull(*final(stack)),
        old(stack).has(this_) ==> r == Ok::<TyRef, Ex>(old(stack).at(this_)) && *final(stack) == *old(stack),
        !old(stack).has(this_) ==> ({ let o = hit(old(registry).m_global, tname(this_));
            &&& o.id == 0 ==> r == Ok::<TyRef, Ex>(o) && *final(stack) == *old(stack)
            &&& o.id != 0 && tsame(o, this_) ==> r == Ok::<TyRef, Ex>(o) && final(stack).has(this_) && done(*old(stack), *final(stack), old(registry).m_global, old(registry).m_global)
            &&& o.id != 0 && !tsame(o, this_) ==> r is Err })
//@at entry
proof { axiom_abs(this_); lemma_lookup(*registry, tname(this_)); assert(kept(registry.m_global, registry.m_global)); if registry.m_global.has(tname(this_)) { assert(held(registry.m_global, registry.m_global.at(tname(this_)).type_)); } }
//@end
//@fn Type_merge this=TyRef file=typelib/typemodel.cc class=Type name=merge nparams=2 throws=yes virtual=any_merge overrides=Type,Indirect,MetaData
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@spec
    requires mpre(*old(registry), *old(stack)), this_.id != 0
    ensures mpost(*old(registry), *final(registry)),
        r is Ok ==> nonull(*final(stack)) && final(stack).has(this_) && done(*old(stack), *final(stack), old(registry).m_global, final(registry).m_global),
        r is Ok && old(stack).has(this_) ==> r->Ok_0 == old(stack).at(this_),
        r is Ok && !old(stack).has(this_) ==> fits(old(registry).m_global, this_, r->Ok_0) && held(final(registry).m_global, r->Ok_0)
//@at entry
let ghost s0 = *stack;
let ghost g0 = registry.m_global;
proof { axiom_abs(this_); lemma_lookup(*registry, tname(this_)); if g0.has(tname(this_)) { assert(held(g0, g0.at(tname(this_)).type_)); } }
//@at call:do_merge#1.after
let ghost s1 = *stack;
let ghost g1 = registry.m_global;
proof { axiom_abs($ret); }
//@at call:add2#1.before
let ghost s2 = *stack;
//@at call:add2#1.after
proof {
    assert(kept(g1, registry.m_global));
    assert(held(registry.m_global, new_type)) by { assert(registry.m_global.has(tname(new_type))); }
    assert forall|t: TyRef| #[trigger] s2.has(t) && !s0.has(t) implies fits(g0, t, s2.at(t)) && held(registry.m_global, s2.at(t)) by {
        if s1.has(t) { assert(s2.at(t) == s1.at(t)); if held(g1, s1.at(t)) { lemma_held(g1, registry.m_global, s1.at(t)); } }
    }
}
//@end
//@fn Indirect_merge this=TyRef file=typelib/typemodel.cc class=Indirect name=merge nparams=2 throws=yes
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@spec
    requires mpre(*old(registry), *old(stack)), this_.id != 0, tcat(this_) == Array || tcat(this_) == Pointer || tcat(this_) == Container
    ensures mpost(*old(registry), *final(registry)),
        r is Ok ==> nonull(*final(stack)) && final(stack).has(this_) && done(*old(stack), *final(stack), old(registry).m_global, final(registry).m_global),
        r is Ok && old(stack).has(this_) ==> r->Ok_0 == old(stack).at(this_),
        r is Ok && !old(stack).has(this_) ==> fits(old(registry).m_global, this_, r->Ok_0) && (held(final(registry).m_global, r->Ok_0) )
//@at entry
let ghost s0 = *stack;
let ghost g0 = registry.m_global;
proof { axiom_ind(this_); }
//@end
// what a type refers to exists
#[verifier::external_body]
pub proof fn axiom_ind(t: TyRef) ensures tind(t).id != 0 {}
#[verifier::exec_allows_no_decreases_clause]
pub fn any_merge(this_: TyRef, registry: &mut Registry, stack: &mut PMap) -> (r: Result<TyRef, Ex>)
    requires mpre(*old(registry), *old(stack)), this_.id != 0
    ensures mpost(*old(registry), *final(registry)),
        r is Ok ==> nonull(*final(stack)) && final(stack).has(this_) && done(*old(stack), *final(stack), old(registry).m_global, final(registry).m_global),
        r is Ok && old(stack).has(this_) ==> r->Ok_0 == old(stack).at(this_),
        r is Ok && !old(stack).has(this_) ==> fits(old(registry).m_global, this_, r->Ok_0) && held(final(registry).m_global, r->Ok_0)
{
    let c = this_.getCategory();
    if c == Array || c == Pointer || c == Container { Indirect_merge(this_, registry, stack) } else { Type_merge(this_, registry, stack) }
}
//@fn Type_merge1 this=TyRef file=typelib/typemodel.cc class=Type name=merge nparams=1 throws=yes
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@spec
    requires rinv(*old(registry)), this_.id != 0
    ensures mpost(*old(registry), *final(registry)),
        r is Ok ==> fits(old(registry).m_global, this_, r->Ok_0) && held(final(registry).m_global, r->Ok_0)
//@end
// copies (the copy constructors of the classes)
#[verifier::external_body]
pub fn new_nulltype(t: TyRef) -> (r: TyRef) ensures r.id != 0, tcat(r) == tcat(t), tsize(r) == tsize(t), tname(r) == tname(t) { unimplemented!() }
#[verifier::external_body]
pub fn new_opaquetype(t: TyRef) -> (r: TyRef) ensures r.id != 0, tcat(r) == tcat(t), tsize(r) == tsize(t), tname(r) == tname(t) { unimplemented!() }
#[verifier::external_body]
pub fn new_numeric(t: TyRef) -> (r: TyRef) ensures r.id != 0, tcat(r) == tcat(t), tsize(r) == tsize(t), tname(r) == tname(t) { unimplemented!() }
#[verifier::external_body]
pub fn new_enum(t: TyRef) -> (r: TyRef) ensures r.id != 0, tcat(r) == tcat(t), tsize(r) == tsize(t), tname(r) == tname(t) { unimplemented!() }
#[verifier::external_body]
pub fn new_array(of: TyRef, dim: usize) -> (r: TyRef) ensures r.id != 0, tcat(r) == Array, tind(r) == of, tdim(r) == dim { unimplemented!() }
#[verifier::external_body]
pub fn new_pointer(of: TyRef) -> (r: TyRef) ensures r.id != 0, tcat(r) == Pointer, tind(r) == of { unimplemented!() }
//@fn NullType_do_merge this=TyRef file=typelib/typemodel.cc class=NullType name=do_merge throws=yes dispatch=any_do_merge overrides=NullType,OpaqueType,Numeric,Enum,Compound,Array,Pointer,Container
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@spec
    requires mpre(*old(registry), *old(stack)), this_.id != 0, tcat(this_) == NullType, !old(registry).m_global.has(tname(this_)), !old(stack).has(this_)
    ensures mpost(*old(registry), *final(registry)),
        r is Ok ==> nonull(*final(stack)) && grew(*old(stack), *final(stack), old(registry).m_global, final(registry).m_global, this_, r->Ok_0),
        r is Ok ==> r->Ok_0.id != 0 && tcat(r->Ok_0) == tcat(this_)
//@end
//@fn OpaqueType_do_merge this=TyRef file=typelib/typemodel.cc class=OpaqueType name=do_merge throws=yes
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@spec
    requires mpre(*old(registry), *old(stack)), this_.id != 0, tcat(this_) == Opaque, !old(registry).m_global.has(tname(this_)), !old(stack).has(this_)
    ensures mpost(*old(registry), *final(registry)),
        r is Ok ==> nonull(*final(stack)) && grew(*old(stack), *final(stack), old(registry).m_global, final(registry).m_global, this_, r->Ok_0),
        r is Ok ==> r->Ok_0.id != 0 && tcat(r->Ok_0) == tcat(this_)
//@end
//@fn Numeric_do_merge this=TyRef file=typelib/typemodel.cc class=Numeric name=do_merge throws=yes
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@spec
    requires mpre(*old(registry), *old(stack)), this_.id != 0, tcat(this_) == Numeric, !old(registry).m_global.has(tname(this_)), !old(stack).has(this_)
    ensures mpost(*old(registry), *final(registry)),
        r is Ok ==> nonull(*final(stack)) && grew(*old(stack), *final(stack), old(registry).m_global, final(registry).m_global, this_, r->Ok_0),
        r is Ok ==> r->Ok_0.id != 0 && tcat(r->Ok_0) == tcat(this_)
//@end
//@fn Enum_do_merge this=TyRef file=typelib/typemodel.cc class=Enum name=do_merge throws=yes
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@spec
    requires mpre(*old(registry), *old(stack)), this_.id != 0, tcat(this_) == Enum, !old(registry).m_global.has(tname(this_)), !old(stack).has(this_)
    ensures mpost(*old(registry), *final(registry)),
        r is Ok ==> nonull(*final(stack)) && grew(*old(stack), *final(stack), old(registry).m_global, final(registry).m_global, this_, r->Ok_0),
        r is Ok ==> r->Ok_0.id != 0 && tcat(r->Ok_0) == tcat(this_)
//@end
//@fn Array_do_merge this=TyRef file=typelib/typemodel.cc class=Array name=do_merge throws=yes
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@spec
    requires mpre(*old(registry), *old(stack)), this_.id != 0, tcat(this_) == Array, !old(registry).m_global.has(tname(this_)), !old(stack).has(this_)
    ensures mpost(*old(registry), *final(registry)),
        r is Ok ==> nonull(*final(stack)) && grew(*old(stack), *final(stack), old(registry).m_global, final(registry).m_global, this_, r->Ok_0),
        r is Ok ==> r->Ok_0.id != 0 && tcat(r->Ok_0) == tcat(this_) && tdim(r->Ok_0) == tdim(this_) && (old(stack).has(tind(this_)) ==> tind(r->Ok_0) == old(stack).at(tind(this_)))
//@at entry
proof { axiom_ind(this_); }
//@end
//@fn Pointer_do_merge this=TyRef file=typelib/typemodel.cc class=Pointer name=do_merge throws=yes
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@spec
    requires mpre(*old(registry), *old(stack)), this_.id != 0, tcat(this_) == Pointer, !old(registry).m_global.has(tname(this_)), !old(stack).has(this_)
    ensures mpost(*old(registry), *final(registry)),
        r is Ok ==> nonull(*final(stack)) && grew(*old(stack), *final(stack), old(registry).m_global, final(registry).m_global, this_, r->Ok_0),
        r is Ok ==> r->Ok_0.id != 0 && tcat(r->Ok_0) == tcat(this_) && (old(stack).has(tind(this_)) ==> tind(r->Ok_0) == old(stack).at(tind(this_)))
//@at entry
proof { axiom_ind(this_); }
//@end
// compounds (try/catch around the fields) and containers (made by their factory) are assumed to follow the same contract
#[verifier::external_body]
pub fn trusted_do_merge(this_: TyRef, registry: &mut Registry, stack: &mut PMap) -> (r: Result<TyRef, Ex>)
    requires mpre(*old(registry), *old(stack)), this_.id != 0, tcat(this_) == Compound || tcat(this_) == Container
    ensures mpost(*old(registry), *final(registry)),
        r is Ok ==> nonull(*final(stack)) && grew(*old(stack), *final(stack), old(registry).m_global, final(registry).m_global, this_, r->Ok_0),
        r is Ok ==> r->Ok_0.id != 0 && tcat(r->Ok_0) == tcat(this_)
{ unimplemented!() }
#[verifier::exec_allows_no_decreases_clause]
pub fn any_do_merge(this_: TyRef, registry: &mut Registry, stack: &mut PMap) -> (r: Result<TyRef, Ex>)
    requires mpre(*old(registry), *old(stack)), this_.id != 0, !old(registry).m_global.has(tname(this_)), !old(stack).has(this_)
    ensures mpost(*old(registry), *final(registry)),
        r is Ok ==> nonull(*final(stack)) && grew(*old(stack), *final(stack), old(registry).m_global, final(registry).m_global, this_, r->Ok_0),
        r is Ok ==> r->Ok_0.id != 0 && tcat(r->Ok_0) == tcat(this_)
{
    proof { axiom_cat(this_); }
    let c = this_.getCategory();
    if c == NullType { NullType_do_merge(this_, registry, stack) }
    else if c == Opaque { OpaqueType_do_merge(this_, registry, stack) }
    else if c == Numeric { Numeric_do_merge(this_, registry, stack) }
    else if c == Enum { Enum_do_merge(this_, registry, stack) }
    else if c == Array { Array_do_merge(this_, registry, stack) }
    else if c == Pointer { Pointer_do_merge(this_, registry, stack) }
    else { trusted_do_merge(this_, registry, stack) }
}
//@fn RegIt::isPersistent file=typelib/registry.cc class=RegistryIterator impl=impl<'b>~RegIt<'b> self=self
//@spec
    requires self.m_iter.i < self.m_iter.m.v@.len()
    ensures r == self.m_iter.m.v@[self.m_iter.i as int].1.persistent
//@end
//@fn RegIt::getSource file=typelib/registry.cc class=RegistryIterator impl=impl<'b>~RegIt<'b> self=self
//@spec
    requires self.m_iter.i < self.m_iter.m.v@.len()
    ensures r@ == self.m_iter.m.v@[self.m_iter.i as int].1.source_id@
//@end
// the meta-data of types are not part of the tables of names
pub fn handle_meta_set(t: TyRef, k: &Vec<u8>, v: &Vec<u8>) {}
pub fn any_mergeMetaData(t: TyRef, o: TyRef) {}
// the same names for the same types
pub open spec fn sametypes(g: TMap, h: TMap) -> bool { h.same_keys(g) && forall|i: int| 0 <= i < g.v@.len() ==> (#[trigger] h.v@[i]).1.type_ == g.v@[i].1.type_ && h.v@[i].1.persistent == g.v@[i].1.persistent }
pub proof fn lemma_sametypes(a: Registry, b: Registry)
    requires rinv(a), sametypes(a.m_global, b.m_global), b.m_current == a.m_current, b.m_namespace == a.m_namespace
    ensures rinv(b), kept(a.m_global, b.m_global), forall|x: Seq<u8>| #[trigger] b.m_global.has(x) == a.m_global.has(x)
{
    b.m_global.lemma_same_keys(a.m_global);
    let g = a.m_global; let h = b.m_global; let c = comps(a.m_namespace@); let n = c.len() as int;
    assert(sorted(h)) by { assert forall|i: int, j: int| 0 <= i < j < h.v@.len() implies lt((#[trigger] h.v@[i]).0@, (#[trigger] h.v@[j]).0@) by { assert(lt(g.v@[i].0@, g.v@[j].0@)); } }
    assert forall|i: int| 0 <= i < h.v@.len() implies gname((#[trigger] h.v@[i]).0@) && h.v@[i].1.type_.id != 0 by { assert(gname(g.v@[i].0@)); }
    assert(cur(h, c, n, b.m_current)) by { assert forall|k: Seq<u8>| k.len() > 0 implies #[trigger] binds(b.m_current, k, h, rname(h, c, k, n)) by { lemma_rname_same(g, h, c, k, n); assert(binds(a.m_current, k, g, rname(g, c, k, n))); } }
}
pub proof fn lemma_same_kept(g: TMap, h: TMap)
    requires g.ok(), sametypes(g, h)
    ensures kept(g, h)
{ h.lemma_same_keys(g); }
pub proof fn lemma_rname_same(g: TMap, h: TMap, c: Seq<Seq<u8>>, k: Seq<u8>, n: int)
    requires forall|x: Seq<u8>| #[trigger] h.has(x) == g.has(x)
    ensures rname(h, c, k, n) == rname(g, c, k, n)
    decreases n
{ if n > 0 { lemma_rname_same(g, h, c, k, n - 1); } }
//@fn Registry::setSourceID file=typelib/registry.cc impl=impl~Registry class=Registry
//@spec
    requires rinv(*old(self))
    ensures rinv(*final(self)), sametypes(old(self).m_global, final(self).m_global), final(self).m_namespace == old(self).m_namespace, final(self).m_current == old(self).m_current
//@at end
proof { lemma_sametypes(*old(self), *self); }
//@end
//@fn Registry::copySourceIDs file=typelib/registry.cc impl=impl~Registry class=Registry
//@spec
    requires rinv(*old(self))
    ensures rinv(*final(self)), sametypes(old(self).m_global, final(self).m_global), final(self).m_namespace == old(self).m_namespace
//@loop 1
invariant rit(other_it, registry.m_global), rinv(*self), sametypes(old(self).m_global, self.m_global), self.m_namespace == old(self).m_namespace
decreases registry.m_global.v@.len() - other_it.m_iter.i
//@end
//@fn Registry::mergeMetaData file=typelib/registry.cc impl=impl~Registry class=Registry
//@spec
    requires rinv(*old(self))
    ensures *final(self) == *old(self)
//@loop 1
invariant rit(other_it, registry.m_global), rinv(*self), *self == *old(self)
decreases registry.m_global.v@.len() - other_it.m_iter.i
//@end
// what is asked of the source: absolute names for types
pub open spec fn merged(g: TMap, h: TMap, e: (Vec<u8>, RegistryType)) -> bool {
    if isalias(e) { h.has(e.0@) && (g.has(e.0@) ==> tsame(h.at(e.0@).type_, e.1.type_)) }
    else { exists|u: TyRef| #[trigger] held(h, u) && fits(g, e.1.type_, u) }
}
//@fn Registry::merge file=typelib/registry.cc impl=impl~Registry class=Registry throws=yes
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@spec
    requires rinv(*old(self)), ginv(registry.m_global)
    ensures mpost(*old(self), *final(self)),
        r is Ok ==> forall|i: int| 0 <= i < registry.m_global.v@.len() ==> merged(old(self).m_global, final(self).m_global, #[trigger] registry.m_global.v@[i])
//@at entry
let ghost g0 = self.m_global;
//@loop 1
invariant rit(it, registry.m_global), ginv(registry.m_global), mpost(*old(self), *self), nonull(stack), stack.ok(), g0 == old(self).m_global,
    forall|t: TyRef| #[trigger] stack.has(t) ==> fits(g0, t, stack.at(t)) && held(self.m_global, stack.at(t)),
    forall|i: int| 0 <= i < it.m_iter.i && !isalias(registry.m_global.v@[i]) ==> stack.has((#[trigger] registry.m_global.v@[i]).1.type_)
decreases registry.m_global.v@.len() - it.m_iter.i
//@at loop1.begin
let ghost s1 = stack;
let ghost g1 = self.m_global;
proof { assert(gname(registry.m_global.v@[it.m_iter.i as int].0@)); }
//@at call:Type_merge#1.after
proof {
    assert forall|t: TyRef| #[trigger] stack.has(t) implies fits(g0, t, stack.at(t)) && held(self.m_global, stack.at(t)) by {
        if s1.has(t) { assert(stack.at(t) == s1.at(t)); lemma_held(g1, self.m_global, s1.at(t)); }
        else { assert(fits(g1, t, stack.at(t))); }
    }
}
//@loop 2
invariant rit(it, registry.m_global), ginv(registry.m_global), mpost(*old(self), *self), g0 == old(self).m_global,
    forall|t: TyRef| #[trigger] stack.has(t) ==> fits(g0, t, stack.at(t)) && held(self.m_global, stack.at(t)),
    forall|i: int| 0 <= i < registry.m_global.v@.len() && !isalias(registry.m_global.v@[i]) ==> stack.has((#[trigger] registry.m_global.v@[i]).1.type_),
    forall|i: int| 0 <= i < it.m_iter.i && isalias(registry.m_global.v@[i]) ==> merged(g0, self.m_global, #[trigger] registry.m_global.v@[i])
decreases registry.m_global.v@.len() - it.m_iter.i
//@at loop2.begin
let ghost g2 = self.m_global;
let ghost e2 = registry.m_global.v@[it.m_iter.i as int];
proof { assert(gname(e2.0@)); lemma_lookup(*self, e2.0@); axiom_abs(e2.1.type_); }
//@at loop2.end
proof {
    assert(kept(g2, self.m_global));
    assert forall|i: int| 0 <= i < it.m_iter.i && isalias(registry.m_global.v@[i]) implies merged(g0, self.m_global, #[trigger] registry.m_global.v@[i]) by {
        let e = registry.m_global.v@[i];
        if i < it.m_iter.i - 1 { assert(merged(g0, g2, e)); assert(g2.has(e.0@)); }
    }
    assert forall|t: TyRef| #[trigger] stack.has(t) implies fits(g0, t, stack.at(t)) && held(self.m_global, stack.at(t)) by { lemma_held(g2, self.m_global, stack.at(t)); }
}
//@at call:alias4#1.err
proof { assert(kept(g2, self.m_global)); }
//@at call:copySourceIDs#1.before
let ghost g3 = self.m_global;
//@at call:copySourceIDs#1.after
proof { lemma_same_kept(g3, self.m_global); }
//@at end
proof {
    assert forall|i: int| 0 <= i < registry.m_global.v@.len() implies merged(g0, self.m_global, #[trigger] registry.m_global.v@[i]) by {
        let e = registry.m_global.v@[i];
        if isalias(e) { assert(merged(g0, g3, e)); assert(g3.has(e.0@)); }
        else { let u = stack.at(e.1.type_); assert(stack.has(e.1.type_)); lemma_held(g3, self.m_global, u); }
    }
}
//@end
