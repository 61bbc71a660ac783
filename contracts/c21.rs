//@include prelude.rs
//@include types.rs
#[verifier::external_body]
pub fn handle_eq(a: usize, b: usize) -> (r: bool) ensures r == (a == b) { unimplemented!() }
pub fn min_usize(a: usize, b: usize) -> (r: usize) ensures r == if b < a { b } else { a } { if b < a { b } else { a } }
pub open spec fn W() -> int { 0x1_0000_0000_0000_0000 }
// the largest size of a vector of bytes
pub open spec fn MAXB() -> int { 0x7FFF_FFFF_FFFF_FFFF }
pub fn max_size() -> (r: usize) ensures r == MAXB() { 0x7FFF_FFFF_FFFF_FFFF }
#[verifier::external_body]
pub fn wadd(a: usize, b: usize) -> (r: usize) ensures r == (a + b) % W() { a.wrapping_add(b) }
#[verifier::external_body]
pub fn wsub(a: usize, b: usize) -> (r: usize) ensures r == (a - b) % W() { a.wrapping_sub(b) }
#[verifier::external_body]
pub fn wmul(a: usize, b: usize) -> (r: usize) ensures r == (a * b) % W() { a.wrapping_mul(b) }
// ---- the values of the elements
#[verifier::external_body]
pub struct V { x: usize }
// what a freshly constructed element is, and an element whose bytes are all zero
pub uninterp spec fn blank(e: TyRef) -> V;
pub uninterp spec fn zero(e: TyRef) -> V;
// Typelib::compare
pub uninterp spec fn veq(a: V, b: V) -> bool;
// elements have a layout; it is a single block of bytes
pub uninterp spec fn tlay(e: TyRef) -> bool;
pub uninterp spec fn tmem(e: TyRef) -> bool;
impl TyRef {
    // Vector::hasElementLayout, isElementMemcpy and elementLayout (the layout is computed on demand: C05)
    #[verifier::external_body]
    pub fn hasElementLayout(self) -> (r: bool) ensures r == tlay(tind(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn isElementMemcpy(self) -> (r: bool) ensures r == tmem(tind(self)), r ==> tlay(tind(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn elementLayout(self) -> usize { unimplemented!() }
}
// ---- std::vector<uint8_t> objects and the storage they own
// an element slot is raw memory or holds a constructed element
pub enum Slot { Raw, Is(V) }
pub struct BRef { pub id: usize }
impl Copy for BRef {}
impl Clone for BRef { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
// a pointer into the storage a vector had when it was taken
pub struct EP { pub b: BRef, pub gen: Ghost<int>, pub off: usize }
impl Copy for EP {}
impl Clone for EP { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl EP {
    #[verifier::external_body]
    pub fn add(self, n: usize) -> (r: EP) requires self.off + n <= MAXB() ensures r.b == self.b, r.gen == self.gen, r.off == self.off + n { unimplemented!() }
}
pub struct VRef { pub p: EP, pub t: TyRef }
impl Copy for VRef {}
impl Clone for VRef { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
// all vectors hold elements of one type
#[verifier::external_body]
pub struct Heap { g: usize }
impl Heap {
    pub uninterp spec fn live(self, b: BRef) -> bool;
    pub uninterp spec fn slots(self, b: BRef) -> Seq<Slot>;
    pub uninterp spec fn cap(self, b: BRef) -> nat;
    pub uninterp spec fn gen(self, b: BRef) -> int;
}
pub struct World { pub m: Heap, pub e: Ghost<TyRef> }
pub open spec fn same(a: World, b: World, x: BRef) -> bool { b.m.live(x) == a.m.live(x) && b.m.slots(x) == a.m.slots(x) && b.m.cap(x) == a.m.cap(x) && b.m.gen(x) == a.m.gen(x) }
// nothing but x and z changes
pub open spec fn only2(a: World, b: World, x: BRef, z: BRef) -> bool {
    &&& b.e == a.e && b.m.live(x)
    &&& forall|y: BRef| y != x && y != z ==> #[trigger] b.m.live(y) == a.m.live(y)
    &&& forall|y: BRef| y != x && y != z ==> #[trigger] b.m.slots(y) == a.m.slots(y)
    &&& forall|y: BRef| y != x && y != z ==> #[trigger] b.m.cap(y) == a.m.cap(y)
    &&& forall|y: BRef| y != x && y != z ==> #[trigger] b.m.gen(y) == a.m.gen(y)
}
// nothing but x changes
pub open spec fn only0(a: World, b: World, x: BRef) -> bool {
    &&& b.e == a.e
    &&& forall|y: BRef| y != x ==> #[trigger] b.m.live(y) == a.m.live(y)
    &&& forall|y: BRef| y != x ==> #[trigger] b.m.slots(y) == a.m.slots(y)
    &&& forall|y: BRef| y != x ==> #[trigger] b.m.cap(y) == a.m.cap(y)
    &&& forall|y: BRef| y != x ==> #[trigger] b.m.gen(y) == a.m.gen(y)
}
pub open spec fn only(a: World, b: World, x: BRef) -> bool {
    &&& b.e == a.e && b.m.live(x)
    &&& forall|y: BRef| y != x ==> #[trigger] b.m.live(y) == a.m.live(y)
    &&& forall|y: BRef| y != x ==> #[trigger] b.m.slots(y) == a.m.slots(y)
    &&& forall|y: BRef| y != x ==> #[trigger] b.m.cap(y) == a.m.cap(y)
    &&& forall|y: BRef| y != x ==> #[trigger] b.m.gen(y) == a.m.gen(y)
}
pub open spec fn kept(a: World, b: World, x: BRef) -> bool { only(a, b, x) && b.m.cap(x) == a.m.cap(x) && b.m.gen(x) == a.m.gen(x) }
impl World {
    pub open spec fn es(self) -> int { tsize(self.e@) as int }
    pub open spec fn n(self, b: BRef) -> int { self.m.slots(b).len() as int }
    pub open spec fn raw(self, b: BRef) -> int { self.n(b) * self.es() }
    pub open spec fn at_slot(self, p: EP) -> bool { self.m.live(p.b) && p.gen@ == self.m.gen(p.b) && 0 <= p.off < self.raw(p.b) && p.off as int % self.es() == 0 }
    pub open spec fn ix(self, p: EP) -> int { p.off as int / self.es() }
    pub open spec fn sl(self, p: EP) -> Slot { self.m.slots(p.b)[self.ix(p)] }
    pub open spec fn holds(self, p: EP) -> bool { self.at_slot(p) && self.sl(p) is Is }
    // every element is constructed
    pub open spec fn full(self, b: BRef) -> bool { self.m.live(b) && forall|i: int| 0 <= i < self.n(b) ==> (#[trigger] self.m.slots(b)[i]) is Is }
    pub open spec fn ok(self) -> bool { 0 < self.es() && forall|b: BRef| #[trigger] self.m.live(b) ==> self.raw(b) <= self.m.cap(b) <= MAXB() }
    #[verifier::external_body]
    pub fn size(&self, b: BRef) -> (r: usize) requires self.m.live(b) ensures r == self.raw(b), r <= MAXB() { unimplemented!() }
    #[verifier::external_body]
    pub fn capacity(&self, b: BRef) -> (r: usize) requires self.m.live(b) ensures r == self.m.cap(b) { unimplemented!() }
    // &(*b)[i]
    #[verifier::external_body]
    pub fn at(&self, b: BRef, i: usize) -> (r: EP) requires self.m.live(b), i <= self.raw(b) ensures r.b == b, r.gen@ == self.m.gen(b), r.off == i { unimplemented!() }
    // a local vector
    #[verifier::external_body]
    pub fn fresh(&mut self) -> (r: BRef) requires old(self).ok() ensures final(self).ok(), !old(self).m.live(r), only(*old(self), *final(self), r), final(self).n(r) == 0, final(self).m.cap(r) == 0 { unimplemented!() }
    // the constructor and the destructor of the vector: elements are not destroyed
    #[verifier::external_body]
    pub fn construct(&mut self, b: BRef) requires old(self).ok(), !old(self).m.live(b) ensures final(self).ok(), only(*old(self), *final(self), b), final(self).n(b) == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn release(&mut self, b: BRef)
        requires old(self).ok(), old(self).m.live(b), forall|i: int| 0 <= i < old(self).n(b) && !tmem(old(self).e@) ==> (#[trigger] old(self).m.slots(b)[i]) is Raw
        ensures final(self).ok(), only0(*old(self), *final(self), b), !final(self).m.live(b)
    { unimplemented!() }
    // vector::resize moves bytes: only raw memory, or elements that are bytes, may be moved or dropped
    #[verifier::external_body]
    pub fn resize(&mut self, b: BRef, n: usize)
        requires old(self).ok(), old(self).m.live(b), n <= MAXB(), n as int % old(self).es() == 0,
            forall|i: int| n as int / old(self).es() <= i < old(self).n(b) && !tmem(old(self).e@) ==> (#[trigger] old(self).m.slots(b)[i]) is Raw,
            n > old(self).m.cap(b) && !tmem(old(self).e@) ==> forall|i: int| 0 <= i < old(self).n(b) ==> (#[trigger] old(self).m.slots(b)[i]) is Raw
        ensures final(self).ok(), only(*old(self), *final(self), b), final(self).n(b) == n as int / old(self).es(),
            forall|i: int| 0 <= i < final(self).n(b) ==> #[trigger] final(self).m.slots(b)[i] == if i < old(self).n(b) { old(self).m.slots(b)[i] } else if tmem(old(self).e@) { Slot::Is(zero(old(self).e@)) } else { Slot::Raw },
            n <= old(self).m.cap(b) ==> final(self).m.cap(b) == old(self).m.cap(b) && final(self).m.gen(b) == old(self).m.gen(b)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&mut self, a: BRef, b: BRef)
        requires old(self).ok(), old(self).m.live(a), old(self).m.live(b), a != b
        ensures final(self).ok(), final(self).e == old(self).e, only2(*old(self), *final(self), a, b), final(self).m.live(a), final(self).m.live(b),
            final(self).m.slots(a) == old(self).m.slots(b), final(self).m.slots(b) == old(self).m.slots(a), final(self).m.cap(a) == old(self).m.cap(b), final(self).m.cap(b) == old(self).m.cap(a)
    { unimplemented!() }
    // Typelib::init, destroy and copy on one element
    #[verifier::external_body]
    pub fn init(&mut self, p: EP, layout: usize)
        requires old(self).ok(), old(self).at_slot(p), old(self).sl(p) is Raw
        ensures final(self).ok(), kept(*old(self), *final(self), p.b), final(self).m.slots(p.b) == old(self).m.slots(p.b).update(old(self).ix(p), Slot::Is(blank(old(self).e@)))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn destroy(&mut self, p: EP, layout: usize)
        requires old(self).ok(), old(self).holds(p)
        ensures final(self).ok(), kept(*old(self), *final(self), p.b), final(self).m.slots(p.b) == old(self).m.slots(p.b).update(old(self).ix(p), Slot::Raw)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn copy(&mut self, d: EP, s: EP)
        requires old(self).ok(), old(self).holds(d), old(self).holds(s)
        ensures final(self).ok(), kept(*old(self), *final(self), d.b), final(self).m.slots(d.b) == old(self).m.slots(d.b).update(old(self).ix(d), old(self).sl(s))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn copy_value(&mut self, d: VRef, s: VRef)
        requires old(self).ok(), old(self).holds(d.p), old(self).holds(s.p), d.t == old(self).e@, s.t == old(self).e@
        ensures final(self).ok(), kept(*old(self), *final(self), d.p.b), final(self).m.slots(d.p.b) == old(self).m.slots(d.p.b).update(old(self).ix(d.p), old(self).sl(s.p))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn compare(&self, a: VRef, b: VRef) -> (r: bool)
        requires self.holds(a.p), self.holds(b.p), a.t == self.e@, b.t == self.e@
        ensures r == veq(self.sl(a.p)->Is_0, self.sl(b.p)->Is_0)
    { unimplemented!() }
    // whole elements are moved, and only those that are bytes
    #[verifier::external_body]
    pub fn memmove(&mut self, d: EP, s: EP, n: usize)
        requires old(self).ok(), old(self).moves(d, s, n)
        ensures final(self).ok(), old(self).moved(*final(self), d, s, n)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn memcpy(&mut self, d: EP, s: EP, n: usize)
        requires old(self).ok(), old(self).moves(d, s, n), d.b != s.b
        ensures final(self).ok(), old(self).moved(*final(self), d, s, n)
    { unimplemented!() }
    pub open spec fn span(self, p: EP, n: int) -> bool { self.m.live(p.b) && p.gen@ == self.m.gen(p.b) && p.off as int % self.es() == 0 && n % self.es() == 0 && self.ix(p) + n / self.es() <= self.n(p.b) }
    pub open spec fn moves(self, d: EP, s: EP, n: usize) -> bool { tmem(self.e@) && self.span(d, n as int) && self.span(s, n as int) }
    pub open spec fn moved(self, to: World, d: EP, s: EP, n: usize) -> bool {
        &&& kept(self, to, d.b) && to.n(d.b) == self.n(d.b)
        &&& forall|i: int| 0 <= i < self.n(d.b) ==> #[trigger] to.m.slots(d.b)[i] == if self.ix(d) <= i < self.ix(d) + n as int / self.es() { self.m.slots(s.b)[i - self.ix(d) + self.ix(s)] } else { self.m.slots(d.b)[i] }
    }
}
// a condition on elements
#[verifier::external_body]
pub struct Pred { x: usize }
pub uninterp spec fn cond(p: Pred, v: V) -> bool;
impl Pred {
    #[verifier::external_body]
    pub fn should_delete(&mut self, w: &World, v: VRef) -> (r: bool) requires w.holds(v.p), v.t == w.e@ ensures *final(self) == *old(self), r == cond(*old(self), w.sl(v.p)->Is_0) { unimplemented!() }
}
// ---- the sequence a vector stands for
pub open spec fn seqv(w: World, b: BRef) -> Seq<V> { Seq::new(w.m.slots(b).len(), |i: int| w.m.slots(b)[i]->Is_0) }
pub open spec fn vec(w: World, t: TyRef, b: BRef) -> bool { w.ok() && w.full(b) && tcat(t) == 7 && tind(t) == w.e@ }
// what the elements of a vector that becomes longer are
pub open spec fn newv(e: TyRef) -> V { if tmem(e) { zero(e) } else { blank(e) } }
pub open spec fn grown(s: Seq<V>, n: int, e: TyRef) -> Seq<V> { Seq::new(n as nat, |i: int| if i < s.len() { s[i] } else { newv(e) }) }
pub proof fn lemma_at(i: int, es: int) requires es > 0, i >= 0 ensures (i * es) % es == 0, (i * es) / es == i, i * es >= 0 { vstd::arithmetic::div_mod::lemma_mod_multiples_basic(i, es); vstd::arithmetic::div_mod::lemma_div_by_multiple(i, es); vstd::arithmetic::mul::lemma_mul_nonnegative(i, es); }
pub proof fn lemma_lt(i: int, j: int, es: int) requires es > 0, i < j ensures i * es + es <= j * es, i * es < j * es { vstd::arithmetic::mul::lemma_mul_inequality(i + 1, j, es); vstd::arithmetic::mul::lemma_mul_is_distributive_add_other_way(es, i, 1); }
pub proof fn lemma_small(a: int) requires 0 <= a < W() ensures a % W() == a { vstd::arithmetic::div_mod::lemma_small_mod(a as nat, W() as nat); }
pub proof fn lemma_blow(n: int, es: int, m: int) requires es > 0, m >= 0 ensures n > m / es <==> n * es > m
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m, es);
    let q = m / es;
    if n > q { lemma_lt(q, n, es); } else if n < q { lemma_lt(n, q, es); }
    assert(q * es == es * q) by (nonlinear_arith);
}
// vectors that are there before and are not x stay as they are
pub open spec fn others(a: World, b: World, x: BRef) -> bool { b.e == a.e && forall|y: BRef| y != x && a.m.live(y) ==> #[trigger] same(a, b, y) }
//@fn Type_ne this=TyRef file=typelib/typemodel.cc class=Type name=operator!=
//@spec
    ensures r == (this_.id != with.id)
//@end
//@fn Vector_getElementCount filter=Vector this=TyRef world=heap file=lang/csupport/containers.cc class=Vector name=getElementCount
//@spec
    requires vec(*old(w), this_, ptr)
    ensures *final(w) == *old(w), r == old(w).n(ptr), r * old(w).es() <= MAXB()
//@at entry
proof { lemma_at(w.n(ptr), w.es()); }
//@end
//@fn findElement static=yes world=heap file=lang/csupport/containers.cc name=findElement assumed=comparison~of~addresses
//@spec
    requires old(w).ok(), old(w).m.live(buffer), element_size == old(w).es()
    ensures *final(w) == *old(w), r == if data.b == buffer && data.gen@ == old(w).m.gen(buffer) && data.off < old(w).raw(buffer) { old(w).ix(data) } else { old(w).n(buffer) }
//@end
//@fn Vector_resize filter=Vector this=TyRef world=heap wrap=all throws=yes file=lang/csupport/containers.cc class=Vector name=resize
//@spec
    requires vec(*old(w), this_, ptr)
    ensures
        r is Ok ==> vec(*final(w), this_, ptr) && seqv(*final(w), ptr) == grown(seqv(*old(w), ptr), new_size as int, old(w).e@) && others(*old(w), *final(w), ptr),
        r is Ok && new_size <= old(w).n(ptr) ==> final(w).m.gen(ptr) == old(w).m.gen(ptr),
        r is Err ==> *final(w) == *old(w) && (!tlay(old(w).e@) || new_size * old(w).es() > MAXB()),
        tlay(old(w).e@) && new_size <= old(w).n(ptr) ==> r is Ok
//@at entry
let ghost v0 = *w;
let ghost es = w.es();
let ghost e = w.e@;
let ghost n0 = w.n(ptr);
proof {
    lemma_at(n0, es); lemma_blow(new_size as int, es, MAXB()); lemma_at(new_size as int, es);
    if new_size * es <= MAXB() { lemma_small(new_size * es); }
    if new_size < n0 { lemma_lt(new_size as int, n0, es); }
    if n0 < new_size { lemma_lt(n0, new_size as int, es); }
}
//@at return#3
proof { assert(seqv(*w, ptr) =~= grown(seqv(v0, ptr), new_size as int, e)); }
//@at loop1.before
let ghost mut k = new_size as int;
//@loop 1
invariant w.ok(), kept(v0, *w, ptr), w.n(ptr) == n0, i == k * es, new_size <= k <= n0, new_raw_size == new_size * es, old_raw_size == n0 * es, n0 * es <= MAXB(),
    forall|j: int| 0 <= j < n0 ==> #[trigger] w.m.slots(ptr)[j] == if new_size <= j < k { Slot::Raw } else { v0.m.slots(ptr)[j] }
decreases n0 - k
//@at loop1.after
proof { if k < n0 { lemma_lt(k, n0, es); } assert(k == n0); }
//@at loop1.begin
let ghost w1 = *w;
proof { if k == n0 {} else { lemma_lt(k, n0, es); } lemma_at(k, es); lemma_small(k * es + es); assert((k + 1) * es == k * es + es) by (nonlinear_arith); }
//@at loop1.end
proof { k = k + 1; }
//@at call:swap#1.after
// nothing is left in the storage that is given back
proof { assert(forall|j: int| 0 <= j < w.n(new_buffer) ==> (#[trigger] w.m.slots(new_buffer)[j]) is Raw); }
//@at loop2.before
let ghost mut k = 0int;
let ghost v1 = *w;
proof {
    assert(same(v0, v1, ptr) && ptr != new_buffer);
    assert(v0.m.live(ptr)); assert(v0.raw(ptr) <= v0.m.cap(ptr));
    assert(n0 < new_size);
}
//@loop 2
invariant w.ok(), w.e == v0.e, w.m.live(ptr), w.m.live(new_buffer), ptr != new_buffer, w.n(ptr) == n0, w.n(new_buffer) == new_size, i == k * es, 0 <= k <= n0, n0 < new_size, copy_raw_size == n0 * es, n0 * es <= MAXB(),
    w.m.gen(ptr) == v1.m.gen(ptr), w.m.gen(new_buffer) == v1.m.gen(new_buffer),
    only2(v0, *w, ptr, new_buffer),
    forall|j: int| 0 <= j < new_size ==> #[trigger] w.m.slots(new_buffer)[j] == if j < k { v0.m.slots(ptr)[j] } else { Slot::Raw },
    forall|j: int| 0 <= j < n0 ==> #[trigger] w.m.slots(ptr)[j] == if j < k { Slot::Raw } else { v0.m.slots(ptr)[j] }
decreases n0 - k
//@at loop2.begin
let ghost w1 = *w;
proof { lemma_lt(k, n0, es); lemma_lt(k, new_size as int, es); lemma_at(k, es); lemma_small(k * es + es); assert((k + 1) * es == k * es + es) by (nonlinear_arith); }
//@at loop2.end
proof {
    k = k + 1;
}
//@at loop3.before
let ghost mut k = n0;
let ghost v2 = *w;
//@loop 3
invariant w.ok(), kept(v2, *w, ptr), w.n(ptr) == new_size, i == k * es, n0 <= k <= new_size, new_raw_size == new_size * es, new_size * es <= MAXB(),
    forall|j: int| 0 <= j < new_size ==> #[trigger] w.m.slots(ptr)[j] == if j < n0 { v0.m.slots(ptr)[j] } else if j < k { Slot::Is(blank(e)) } else { Slot::Raw }
decreases new_size - k
//@at loop3.begin
let ghost w1 = *w;
proof { lemma_lt(k, new_size as int, es); lemma_at(k, es); lemma_small(k * es + es); assert((k + 1) * es == k * es + es) by (nonlinear_arith); }
//@at loop3.end
proof { k = k + 1; }
//@at loop3.after
proof { if k < new_size { lemma_lt(k, new_size as int, es); } assert(k == new_size); }
//@at loop2.after
proof { if k < n0 { lemma_lt(k, n0, es); } assert(k == n0); }
//@at end
proof { assert(seqv(*w, ptr) =~= grown(seqv(v0, ptr), new_size as int, e)); }
//@end

// the value at a place
pub open spec fn val(w: World, p: EP) -> V { w.sl(p)->Is_0 }
//@fn Vector_push filter=Vector this=TyRef world=heap throws=yes file=lang/csupport/containers.cc class=Vector name=push
//@spec
    requires vec(*old(w), this_, ptr), tlay(old(w).e@), v.t == old(w).e@ ==> old(w).holds(v.p)
    ensures
        r is Ok ==> v.t == old(w).e@ && vec(*final(w), this_, ptr) && seqv(*final(w), ptr) == seqv(*old(w), ptr).push(val(*old(w), v.p)) && others(*old(w), *final(w), ptr),
        r is Err ==> *final(w) == *old(w) && (v.t != old(w).e@ || (old(w).n(ptr) + 1) * old(w).es() > MAXB())
//@at entry
let ghost v0 = *w;
let ghost es = w.es();
let ghost n0 = w.n(ptr);
let ghost at0 = v.p;
proof { if n0 > 0 { vstd::arithmetic::mul::lemma_mul_increases(es, n0); } lemma_at(n0, es); }
//@at call:findElement#1.after
proof { if v.t == w.e@ { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v.p.off as int, es); let q = w.ix(v.p); assert(es * q == q * es) by (nonlinear_arith); if v.p.b == ptr { if q >= n0 { if q > n0 { lemma_lt(n0, q, es); } } } } }
//@at call:Vector_resize#1.after
proof { lemma_at(n0, es); lemma_at(n0 + 1, es); lemma_lt(n0, n0 + 1, es); assert(seqv(*w, ptr).len() == n0 + 1); assert(w.n(ptr) == n0 + 1); if v.p.b != ptr { assert(same(v0, *w, v.p.b)); } assert(seqv(*w, ptr)[n0] == newv(w.e@)); assert(forall|i: int| 0 <= i < n0 ==> #[trigger] seqv(*w, ptr)[i] == seqv(v0, ptr)[i]); if value_idx < n0 { lemma_at(value_idx as int, es); lemma_lt(value_idx as int, n0, es); } }
let ghost w1 = *w;
//@at end
proof {
    assert(w1.sl(v.p)->Is_0 == val(v0, at0)) by { if value_idx < n0 { assert(seqv(w1, ptr)[value_idx as int] == seqv(v0, ptr)[value_idx as int]); } else { assert(at0.b != ptr); assert(same(v0, w1, at0.b)); } }
    assert forall|j: int| 0 <= j < n0 implies #[trigger] seqv(*w, ptr)[j] == seqv(v0, ptr)[j] by { assert(seqv(w1, ptr)[j] == seqv(v0, ptr)[j]); }
    assert(seqv(*w, ptr) =~= seqv(v0, ptr).push(val(v0, at0)));
    assert forall|y: BRef| y != ptr && v0.m.live(y) implies #[trigger] same(v0, *w, y) by { assert(same(v0, w1, y)); }
}
//@end
//@fn Vector_copy_range filter=Vector this=TyRef world=heap file=lang/csupport/containers.cc class=Vector name=copy nparams=5
//@spec
    requires vec(*old(w), this_, dst_ptr), vec(*old(w), this_, src_ptr), dst_idx + count <= old(w).n(dst_ptr), src_idx + count <= old(w).n(src_ptr), dst_ptr == src_ptr ==> dst_idx <= src_idx
    ensures vec(*final(w), this_, dst_ptr), kept(*old(w), *final(w), dst_ptr), final(w).n(dst_ptr) == old(w).n(dst_ptr),
        forall|i: int| 0 <= i < old(w).n(dst_ptr) ==> #[trigger] final(w).m.slots(dst_ptr)[i] == if dst_idx <= i < dst_idx + count { old(w).m.slots(src_ptr)[i - dst_idx + src_idx] } else { old(w).m.slots(dst_ptr)[i] }
//@at entry
let ghost v0 = *w;
let ghost es = w.es();
let ghost nd = w.n(dst_ptr);
let ghost ns = w.n(src_ptr);
proof {
    lemma_at(dst_idx as int, es); lemma_at(src_idx as int, es); lemma_at(count as int, es); lemma_at(nd, es); lemma_at(ns, es);
    if dst_idx < nd { lemma_lt(dst_idx as int, nd, es); } else { assert(dst_idx == nd); }
    if src_idx < ns { lemma_lt(src_idx as int, ns, es); } else { assert(src_idx == ns); }
    if count < nd { lemma_lt(count as int, nd, es); }
    assert(es * count == count * es) by (nonlinear_arith);
}
//@loop 1
invariant w.ok(), kept(v0, *w, dst_ptr), w.n(dst_ptr) == nd, i <= count, element_size == es, element_t == w.e@,
    base_src.b == src_ptr, base_src.gen@ == v0.m.gen(src_ptr), base_src.off == src_idx * es, base_dst.b == dst_ptr, base_dst.gen@ == v0.m.gen(dst_ptr), base_dst.off == dst_idx * es,
    forall|j: int| 0 <= j < nd ==> #[trigger] w.m.slots(dst_ptr)[j] == if dst_idx <= j < dst_idx + i { v0.m.slots(src_ptr)[j - dst_idx + src_idx] } else { v0.m.slots(dst_ptr)[j] }
decreases count - i
//@at loop1.begin
proof {
    lemma_at(i as int, es); lemma_at(dst_idx + i, es); lemma_at(src_idx + i, es); lemma_lt(dst_idx + i, nd, es); lemma_lt(src_idx + i, ns, es); 
    assert((dst_idx + i) * es == dst_idx * es + i * es) by (nonlinear_arith); assert((src_idx + i) * es == src_idx * es + i * es) by (nonlinear_arith);
    lemma_at(dst_idx as int, es); lemma_at(src_idx as int, es);
    assert(w.m.slots(src_ptr)[src_idx + i] == v0.m.slots(src_ptr)[src_idx + i]);
    assert(w.m.slots(dst_ptr)[dst_idx + i] == v0.m.slots(dst_ptr)[dst_idx + i]);
}
//@end
//@fn Vector_copy filter=Vector this=TyRef world=heap throws=yes file=lang/csupport/containers.cc class=Vector name=copy nparams=2
//@spec
    requires vec(*old(w), this_, dst), vec(*old(w), this_, src), tlay(old(w).e@)
    ensures r is Ok, vec(*final(w), this_, dst), seqv(*final(w), dst) == seqv(*old(w), src), others(*old(w), *final(w), dst)
//@at entry
let ghost v0 = *w;
let ghost ns = w.n(src);
proof { assert(w.m.live(src)); }
//@at call:Vector_resize#1.after
let ghost w1 = *w;
proof { assert(seqv(*w, dst).len() == ns); assert(dst != src ==> same(v0, *w, src)); if dst == src { assert(forall|j: int| 0 <= j < ns ==> #[trigger] seqv(*w, src)[j] == seqv(v0, src)[j]); } }
//@at end
proof {
    assert forall|j: int| 0 <= j < ns implies #[trigger] seqv(*w, dst)[j] == seqv(v0, src)[j] by { assert(w.m.slots(dst)[j] == w1.m.slots(src)[j]); assert(seqv(w1, src)[j] == w1.m.slots(src)[j]->Is_0); if dst == src { assert(seqv(w1, src)[j] == seqv(v0, src)[j]); } }
    assert(seqv(*w, dst) =~= seqv(v0, src));
    assert forall|y: BRef| y != dst && v0.m.live(y) implies #[trigger] same(v0, *w, y) by { assert(same(v0, w1, y)); }
}
//@end
//@fn Vector_erase_at filter=Vector this=TyRef world=heap throws=yes file=lang/csupport/containers.cc class=Vector name=erase types=size_t|unsigned~long
//@spec
    requires vec(*old(w), this_, ptr), tlay(old(w).e@), idx < old(w).n(ptr)
    ensures r is Ok, vec(*final(w), this_, ptr), seqv(*final(w), ptr) == seqv(*old(w), ptr).remove(idx as int), others(*old(w), *final(w), ptr), final(w).m.gen(ptr) == old(w).m.gen(ptr)
//@at entry
let ghost v0 = *w;
let ghost n0 = w.n(ptr);
//@at call:Vector_resize#1.before
let ghost w1 = *w;
//@at end
proof {
    assert(seqv(*w, ptr).len() == n0 - 1);
    assert forall|j: int| 0 <= j < n0 - 1 implies #[trigger] seqv(*w, ptr)[j] == seqv(v0, ptr).remove(idx as int)[j] by { assert(seqv(*w, ptr)[j] == seqv(w1, ptr)[j]); assert(seqv(w1, ptr)[j] == w1.m.slots(ptr)[j]->Is_0); }
    assert(seqv(*w, ptr) =~= seqv(v0, ptr).remove(idx as int));
    assert forall|y: BRef| y != ptr && v0.m.live(y) implies #[trigger] same(v0, *w, y) by { assert(same(v0, w1, y)); assert(same(w1, *w, y)); }
}
//@end
//@fn Vector_erase filter=Vector this=TyRef world=heap throws=yes file=lang/csupport/containers.cc class=Vector name=erase types=Value
//@spec
    requires vec(*old(w), this_, ptr), tlay(old(w).e@), v.t == old(w).e@ ==> old(w).holds(v.p)
    ensures
        r is Err ==> v.t != old(w).e@ && *final(w) == *old(w),
        r == Ok::<bool, Ex>(false) ==> *final(w) == *old(w) && forall|i: int| 0 <= i < old(w).n(ptr) ==> !veq(#[trigger] seqv(*old(w), ptr)[i], val(*old(w), v.p)),
        r == Ok::<bool, Ex>(true) ==> vec(*final(w), this_, ptr) && others(*old(w), *final(w), ptr) && exists|i: int| first_equal(seqv(*old(w), ptr), val(*old(w), v.p), i) && seqv(*final(w), ptr) == seqv(*old(w), ptr).remove(i)
//@loop 1
invariant *w == *old(w), v.t == w.e@, element_size == w.es(), element_count == w.n(ptr), i <= element_count, base_ptr.b == ptr, base_ptr.gen@ == w.m.gen(ptr), base_ptr.off == 0,
    forall|j: int| 0 <= j < i ==> !veq(#[trigger] seqv(*w, ptr)[j], val(*w, v.p))
decreases element_count - i
//@at loop1.begin
proof { lemma_at(i as int, w.es()); lemma_lt(i as int, w.n(ptr), w.es()); assert(seqv(*w, ptr)[i as int] == w.m.slots(ptr)[i as int]->Is_0); }
//@end
// the first element that compares equal
pub open spec fn first_equal(s: Seq<V>, x: V, i: int) -> bool { 0 <= i < s.len() && veq(s[i], x) && forall|j: int| 0 <= j < i ==> !veq(#[trigger] s[j], x) }
//@fn Vector_compare filter=Vector this=TyRef world=heap file=lang/csupport/containers.cc class=Vector name=compare
//@spec
    requires vec(*old(w), this_, ptr), vec(*old(w), this_, other)
    ensures *final(w) == *old(w), r == (old(w).n(ptr) == old(w).n(other) && forall|i: int| 0 <= i < old(w).n(ptr) ==> veq(#[trigger] seqv(*old(w), ptr)[i], seqv(*old(w), other)[i]))
//@at entry
let ghost es = w.es();
let ghost n0 = w.n(ptr);
proof { lemma_at(n0, es); }
//@loop 1
invariant *w == *old(w), w.n(ptr) == w.n(other), i <= element_count, element_count == n0, element_size == es, element_t == w.e@, 
    base_a.b == ptr, base_a.gen@ == w.m.gen(ptr), base_a.off == 0, base_b.b == other, base_b.gen@ == w.m.gen(other), base_b.off == 0,
    forall|j: int| 0 <= j < i ==> veq(#[trigger] seqv(*w, ptr)[j], seqv(*w, other)[j])
decreases element_count - i
//@at loop1.begin
proof { lemma_at(i as int, es); lemma_lt(i as int, n0, es); assert(seqv(*w, ptr)[i as int] == w.m.slots(ptr)[i as int]->Is_0); assert(seqv(*w, other)[i as int] == w.m.slots(other)[i as int]->Is_0); }
//@end
//@fn Vector_delete_if_impl filter=Vector this=TyRef world=heap throws=yes file=lang/csupport/containers.cc class=Vector name=delete_if_impl
//@spec
    requires vec(*old(w), this_, ptr), tlay(old(w).e@)
    ensures r is Ok, vec(*final(w), this_, ptr), seqv(*final(w), ptr) == left(seqv(*old(w), ptr), *old(pred), old(w).n(ptr)), others(*old(w), *final(w), ptr)
//@at entry
let ghost v0 = *w;
let ghost es = w.es();
let ghost n0 = w.n(ptr);
let ghost s0 = seqv(*w, ptr);
let ghost p0 = *pred;
let ghost mut m = 0int;
//@loop 1
invariant vec(*w, this_, ptr), others(v0, *w, ptr), w.e == v0.e, *pred == p0, 0 <= m <= n0, element_count == w.n(ptr), i <= element_count, element_size == es, element_t == w.e@, n0 * es <= MAXB(), element_count <= n0,
    base.b == ptr, base.gen@ == w.m.gen(ptr), base.off == 0, i == left(s0, p0, m).len(), seqv(*w, ptr) == left(s0, p0, m) + s0.subrange(m, n0)
decreases n0 - m
//@at loop1.begin
let ghost w1 = *w;
proof { lemma_at(i as int, es); lemma_lt(i as int, w.n(ptr), es); assert(w.n(ptr) == i + (n0 - m)); lemma_at(w.n(ptr), es);  assert(seqv(*w, ptr)[i as int] == w.m.slots(ptr)[i as int]->Is_0); assert(seqv(*w, ptr)[i as int] == s0[m]); }
//@at loop1.end
proof { assert(left(s0, p0, m + 1) == if cond(p0, s0[m]) { left(s0, p0, m) } else { left(s0, p0, m).push(s0[m]) }); m = m + 1; assert(seqv(*w, ptr).len() == w.n(ptr)); assert(seqv(w1, ptr).len() == w1.n(ptr)); assert forall|y: BRef| y != ptr && v0.m.live(y) implies #[trigger] same(v0, *w, y) by { assert(same(v0, w1, y)); assert(same(w1, *w, y)); } assert(seqv(*w, ptr) =~= left(s0, p0, m) + s0.subrange(m, n0)); }
//@at end
proof { assert(seqv(*w, ptr).len() == left(s0, p0, m).len() + (n0 - m)); assert(m == n0); assert(seqv(*w, ptr) =~= left(s0, p0, n0)); }
//@end
// what is left of the first n elements
pub open spec fn left(s: Seq<V>, p: Pred, n: int) -> Seq<V> decreases n { if n <= 0 || n > s.len() { Seq::empty() } else if cond(p, s[n - 1]) { left(s, p, n - 1) } else { left(s, p, n - 1).push(s[n - 1]) } }
//@fn Vector_clear filter=Vector this=TyRef world=heap throws=yes file=lang/csupport/containers.cc class=Vector name=clear
//@spec
    requires vec(*old(w), this_, ptr), tlay(old(w).e@)
    ensures r is Ok, vec(*final(w), this_, ptr), final(w).n(ptr) == 0, others(*old(w), *final(w), ptr)
//@at end
proof { assert(seqv(*w, ptr).len() == 0); }
//@end
//@fn Vector_init filter=Vector this=TyRef world=heap file=lang/csupport/containers.cc class=Vector name=init
//@spec
    requires old(w).ok(), !old(w).m.live(ptr)
    ensures final(w).ok(), final(w).full(ptr), final(w).n(ptr) == 0, others(*old(w), *final(w), ptr)
//@end
//@fn Vector_destroy filter=Vector this=TyRef world=heap throws=yes file=lang/csupport/containers.cc class=Vector name=destroy
//@spec
    requires vec(*old(w), this_, ptr), tlay(old(w).e@)
    ensures r is Ok, final(w).ok(), !final(w).m.live(ptr), others(*old(w), *final(w), ptr)
//@at call:Vector_resize#1.after
proof { assert(seqv(*w, ptr).len() == 0); }
let ghost w1 = *w;
//@at end
proof { assert forall|y: BRef| y != ptr && old(w).m.live(y) implies #[trigger] same(*old(w), *w, y) by { assert(same(*old(w), w1, y)); } }
//@end
//@fn Vector_setElement filter=Vector this=TyRef world=heap file=lang/csupport/containers.cc class=Vector name=setElement
//@spec
    requires vec(*old(w), this_, ptr), 0 <= idx < old(w).n(ptr), value.t == old(w).e@, old(w).holds(value.p)
    ensures vec(*final(w), this_, ptr), seqv(*final(w), ptr) == seqv(*old(w), ptr).update(idx as int, val(*old(w), value.p)), others(*old(w), *final(w), ptr)
//@at entry
proof { lemma_at(idx as int, w.es()); lemma_lt(idx as int, w.n(ptr), w.es()); lemma_small(idx * w.es()); }
let ghost v0 = *w;
//@at end
proof { assert(seqv(*w, ptr) =~= seqv(v0, ptr).update(idx as int, val(v0, value.p))); }
//@end
//@fn Vector_getElement filter=Vector this=TyRef world=heap file=lang/csupport/containers.cc class=Vector name=getElement
//@spec
    requires vec(*old(w), this_, ptr), 0 <= idx < old(w).n(ptr)
    ensures *final(w) == *old(w), r.t == old(w).e@, old(w).holds(r.p), r.p.b == ptr, old(w).ix(r.p) == idx
//@at entry
proof { lemma_at(idx as int, w.es()); lemma_lt(idx as int, w.n(ptr), w.es()); lemma_small(idx * w.es()); }
//@end
