//@include prelude.rs
// The memory of the scripting layer: the table of registered addresses, the objects that refer to them, and the
// memory allocated for values.  Addresses, handles of objects and Ruby's VALUEs are numbers.
pub struct Ent { pub rc: int, pub owned: bool, pub root: usize, pub born: int }
pub struct Lay { pub rc: int, pub of: usize }
pub struct G {
    pub tab: Map<usize, usize>,           // MemoryTable: address -> entry
    pub ent: Map<usize, Ent>,             // MemoryTableEntry objects
    pub zn: Map<usize, usize>,            // MemoryZone objects -> address
    pub obj: Map<usize, usize>,           // Ruby objects -> MemoryZone object
    pub ty: Map<usize, usize>,            // memory_types: address -> type
    pub lay: Map<usize, Lay>,             // memory_layouts: type -> layout
    pub blk: Map<usize, Option<usize>>,   // memory that is allocated, and the type of the value in it
    pub len: Map<usize, usize>,           // ... and how many bytes it has
    pub iv: Map<(usize, Seq<char>), usize>, // instance variables
    pub cell: Map<usize, usize>,          // pointers stored in memory
    pub wr: Map<usize, usize>,            // wrappers of values -> the MemoryZone's Ruby object
    pub vd: Map<usize, usize>,            // ... -> the address of the value
    pub own: Set<usize>,                  // strings that have a buffer of their own
    pub clock: int,
    pub dead: Set<usize>,                 // addresses memory_unref is removing
    pub out: Set<usize>,                  // MemoryZone objects that have given up their address
}
pub struct World { pub g: Ghost<G> }
pub struct RV { pub data: usize, pub ty: usize }
impl Copy for RV {}
impl Clone for RV { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl RV {
    pub fn getData(&self) -> (r: usize) ensures r == self.data { self.data }
    pub fn getType(&self) -> (r: usize) ensures r == self.ty { self.ty }
}
pub const RUBY_Qfalse: usize = 0;
pub const RUBY_Qtrue: usize = 20;
pub open spec fn truthy(v: usize) -> bool { v != 0 && v != 4 }
#[verifier::external_body]
pub fn rtest(v: usize) -> (r: bool) ensures r == truthy(v) { unimplemented!() }
pub uninterp spec fn age(v: usize) -> nat;
pub open spec fn iv_of(g: G, v: usize, n: Seq<char>) -> usize { if g.iv.contains_key((v, n)) { g.iv[(v, n)] } else { 4 } }
// the address of the value of a wrapper
pub open spec fn value_data(g: G, v: usize) -> usize { g.vd[v] }
// the wrapper at the end of the chain of parents
pub open spec fn root_of(g: G, v: usize) -> usize decreases age(v) { let p = iv_of(g, v, "@parent"@); if !truthy(p) || age(p) >= age(v) { v } else { root_of(g, p) } }
pub struct TypIt { pub end: bool, pub k: usize }
impl Copy for TypIt {}
impl Clone for TypIt { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl TypIt { pub fn ne(self, o: TypIt) -> (r: bool) ensures r == (self.end != o.end || !self.end && self.k != o.k) { self.end != o.end || !self.end && self.k != o.k } }
pub const RUBY_Qnil: usize = 4;
pub uninterp spec fn num(n: usize) -> usize;
#[verifier::external_body]
pub fn ull2num(n: usize) -> (r: usize) ensures r == num(n) { unimplemented!() }
pub struct LayRef { pub k: usize }
impl Copy for LayRef {}
impl Clone for LayRef { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
// the name a type has in a registry, and the type a registry has under a name
#[verifier::external_body]
pub fn type_name(t: usize) -> usize { unimplemented!() }
#[verifier::external_body]
pub fn reg_get(r: usize, n: usize) -> usize { unimplemented!() }
#[verifier::external_body]
pub fn registry_of(v: usize) -> usize { unimplemented!() }
pub uninterp spec fn str_addr(v: usize) -> usize;
pub uninterp spec fn type_size(t: usize) -> usize;
#[verifier::external_body]
pub fn get_size(t: usize) -> (r: usize) ensures r == type_size(t) { unimplemented!() }
pub uninterp spec fn type_obj(v: usize) -> usize;
// the C++ object of a Ruby class; raises for other objects
#[verifier::external_body]
pub fn type_of(v: usize) -> (r: Result<usize, Ex>) ensures r is Ok ==> r->Ok_0 == type_obj(v) { unimplemented!() }
#[verifier::external_body]
pub fn registry_object(v: usize) -> (r: Result<usize, Ex>) { unimplemented!() }
// a layout is known by the type it describes; refuses types without layout
#[verifier::external_body]
pub fn layout_of(t: usize) -> (r: Result<usize, Ex>) ensures r is Ok ==> r->Ok_0 == t { unimplemented!() }

impl World {
    // ---- st_table
    #[verifier::external_body]
    pub fn lookup(&self, k: usize, e: &mut usize) -> (r: i32)
        ensures self.g@.tab.contains_key(k) ==> r == 1 && *final(e) == self.g@.tab[k], !self.g@.tab.contains_key(k) ==> r == 0 && *final(e) == *old(e)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn has(&self, k: usize) -> (r: i32) ensures r == if self.g@.tab.contains_key(k) { 1int } else { 0 } { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: usize, v: usize) -> (r: i32) ensures final(self).g@ == (G { tab: old(self).g@.tab.insert(k, v), ..old(self).g@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn delete(&mut self, k: usize) -> (r: i32) ensures final(self).g@ == (G { tab: old(self).g@.tab.remove(k), ..old(self).g@ }) { unimplemented!() }
    // ---- MemoryTableEntry (an address has fewer than 2^31 users)
    #[verifier::external_body]
    pub fn get_e_refcount(&self, e: usize) -> (r: i32) requires self.g@.ent.contains_key(e) ensures r == self.g@.ent[e].rc, -0x7FFF_FFFF < r < 0x7FFF_FFFF { unimplemented!() }
    #[verifier::external_body]
    pub fn set_e_refcount(&mut self, e: usize, v: i32) requires old(self).g@.ent.contains_key(e)
        ensures final(self).g@ == (G { ent: old(self).g@.ent.insert(e, Ent { rc: v as int, ..old(self).g@.ent[e] }), ..old(self).g@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_e_owned(&self, e: usize) -> (r: bool) requires self.g@.ent.contains_key(e) ensures r == self.g@.ent[e].owned { unimplemented!() }
    #[verifier::external_body]
    pub fn set_e_owned(&mut self, e: usize, v: bool) requires old(self).g@.ent.contains_key(e)
        ensures final(self).g@ == (G { ent: old(self).g@.ent.insert(e, Ent { owned: v, ..old(self).g@.ent[e] }), ..old(self).g@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_e_root_ptr(&self, e: usize) -> (r: usize) requires self.g@.ent.contains_key(e) ensures r == self.g@.ent[e].root { unimplemented!() }
    #[verifier::external_body]
    pub fn set_e_root_ptr(&mut self, e: usize, v: usize) requires old(self).g@.ent.contains_key(e)
        ensures final(self).g@ == (G { ent: old(self).g@.ent.insert(e, Ent { root: v, ..old(self).g@.ent[e] }), ..old(self).g@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new_entry(&mut self, refcount: i32, owned: bool, root_ptr: usize) -> (r: usize)
        ensures r != 0, !old(self).g@.ent.contains_key(r), forall|p: usize| old(self).g@.tab.contains_key(p) ==> old(self).g@.tab[p] != r,
            final(self).g@ == (G { ent: old(self).g@.ent.insert(r, Ent { rc: refcount as int, owned: owned, root: root_ptr, born: old(self).g@.clock }), clock: old(self).g@.clock + 1, ..old(self).g@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn delete_entry(&mut self, e: usize) requires old(self).g@.ent.contains_key(e) ensures final(self).g@ == (G { ent: old(self).g@.ent.remove(e), ..old(self).g@ }) { unimplemented!() }
    // ---- MemoryZone and the Ruby objects that wrap it
    #[verifier::external_body]
    pub fn new_zone(&mut self, ptr: usize) -> (r: usize)
        ensures r != 0, !old(self).g@.zn.contains_key(r), !old(self).g@.out.contains(r), forall|v: usize| old(self).g@.obj.contains_key(v) ==> old(self).g@.obj[v] != r,
            final(self).g@ == (G { zn: old(self).g@.zn.insert(r, ptr), ..old(self).g@ })
    { unimplemented!() }
    // the destructor of the wrapped object runs when its Ruby object is collected
    #[verifier::external_body]
    pub fn delete_zone(&mut self, z: usize) requires old(self).g@.zn.contains_key(z)
        ensures final(self).g@ == dropped(old(self).g@, z)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_z_ptr(&self, z: usize) -> (r: usize) requires self.g@.zn.contains_key(z) ensures r == self.g@.zn[z] { unimplemented!() }
    #[verifier::external_body]
    pub fn set_z_ptr(&mut self, z: usize, p: usize) requires old(self).g@.zn.contains_key(z) ensures final(self).g@ == (G { zn: old(self).g@.zn.insert(z, p), ..old(self).g@ }) { unimplemented!() }
    // unref: the object's function for the garbage collector is memory_zone_unref
    #[verifier::external_body]
    pub fn wrap(&mut self, z: usize, unref: bool) -> (r: usize)
        requires old(self).g@.zn.contains_key(z), unref, forall|v: usize| old(self).g@.obj.contains_key(v) ==> old(self).g@.obj[v] != z
        ensures !old(self).g@.obj.contains_key(r), final(self).g@ == (G { obj: old(self).g@.obj.insert(r, z), ..old(self).g@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn data(&self, v: usize) -> (r: usize) requires self.g@.obj.contains_key(v) ensures r == self.g@.obj[v] { unimplemented!() }
    #[verifier::external_body]
    pub fn iv_set(&mut self, v: usize, n: &str, x: usize) -> (r: usize) ensures r == x, final(self).g@ == (G { iv: old(self).g@.iv.insert((v, n@), x), ..old(self).g@ }) { unimplemented!() }
    // the parent of a wrapper is there before the wrapper
    #[verifier::external_body]
    pub fn iv_get(&self, v: usize, n: &str) -> (r: usize) ensures r == iv_of(self.g@, v, n@), n@ == "@parent"@ && truthy(r) ==> age(r) < age(v) { unimplemented!() }
    // the Value a wrapper holds; raises for other objects
    #[verifier::external_body]
    pub fn value_of(&self, v: usize) -> (r: Result<RV, Ex>) ensures r is Ok ==> r->Ok_0.data == value_data(self.g@, v) { unimplemented!() }
    // the Ruby class of a type; leaves memory and the parents of wrappers alone
    #[verifier::external_body]
    pub fn type_wrap(&mut self, t: usize, r: usize) -> (c: Result<usize, Ex>) ensures final(self).g@ == old(self).g@, c is Ok ==> type_obj(c->Ok_0) == t { unimplemented!() }
    // Typelib::Type.wrap: a new wrapper for the value at the address of the zone
    #[verifier::external_body]
    pub fn call_wrap(&mut self, ty: usize, p: usize) -> (r: usize)
        requires old(self).g@.obj.contains_key(p)
        ensures !old(self).g@.wr.contains_key(r), truthy(r), final(self).g@ == (G { wr: old(self).g@.wr.insert(r, p), vd: old(self).g@.vd.insert(r, at(old(self).g@, p)), ..old(self).g@ })
    { unimplemented!() }
    // ---- strings
    #[verifier::external_body]
    pub fn str_modify(&mut self, v: usize) ensures final(self).g@ == (G { own: old(self).g@.own.insert(v), ..old(self).g@ }) { unimplemented!() }
    // the address of the bytes of a string, which nothing else refers to (shared bytes belong to other strings as well)
    #[verifier::external_body]
    pub fn string_ptr(&self, v: usize) -> (r: usize) requires self.g@.own.contains(v) ensures r == str_addr(v), r != 0 { unimplemented!() }
    // ---- memory
    #[verifier::external_body]
    pub fn xmalloc(&mut self, n: usize) -> (r: usize) ensures r != 0, !old(self).g@.blk.contains_key(r), final(self).g@ == (G { blk: old(self).g@.blk.insert(r, None), len: old(self).g@.len.insert(r, n), ..old(self).g@ }) { unimplemented!() }
    // values are destroyed before their memory is given back
    #[verifier::external_body]
    pub fn xfree(&mut self, p: usize) requires old(self).g@.blk.contains_key(p), old(self).g@.blk[p] is None ensures final(self).g@ == (G { blk: old(self).g@.blk.remove(p), ..old(self).g@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn init(&mut self, p: usize, of: usize) requires old(self).g@.blk.contains_key(p), old(self).g@.blk[p] is None, old(self).g@.len[p] >= type_size(of)
        ensures final(self).g@ == (G { blk: old(self).g@.blk.insert(p, Some(of)), ..old(self).g@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn destroy(&mut self, p: usize, of: usize) requires old(self).g@.blk.contains_key(p), old(self).g@.blk[p] == Some(of)
        ensures final(self).g@ == (G { blk: old(self).g@.blk.insert(p, None), ..old(self).g@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn store_ptr(&mut self, p: usize, v: usize) requires old(self).g@.blk.contains_key(p) ensures final(self).g@ == (G { cell: old(self).g@.cell.insert(p, v), ..old(self).g@ }) { unimplemented!() }
    // ---- memory_types
    #[verifier::external_body]
    pub fn typ_find(&self, k: usize) -> (r: TypIt) ensures r.end == !self.g@.ty.contains_key(k), !r.end ==> r.k == k { unimplemented!() }
    pub fn typ_end(&self) -> (r: TypIt) ensures r.end { TypIt { end: true, k: 0 } }
    #[verifier::external_body]
    pub fn typ_second(&self, i: TypIt) -> (r: usize) requires !i.end, self.g@.ty.contains_key(i.k) ensures r == self.g@.ty[i.k] { unimplemented!() }
    #[verifier::external_body]
    pub fn typ_erase(&mut self, i: TypIt) requires !i.end, old(self).g@.ty.contains_key(i.k) ensures final(self).g@ == (G { ty: old(self).g@.ty.remove(i.k), ..old(self).g@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn typ_insert(&mut self, k: usize, t: usize) ensures final(self).g@ == (if old(self).g@.ty.contains_key(k) { old(self).g@ } else { G { ty: old(self).g@.ty.insert(k, t), ..old(self).g@ } }) { unimplemented!() }
    // ---- memory_layouts
    #[verifier::external_body]
    pub fn lay_find(&self, k: usize) -> (r: TypIt) ensures r.end == !self.g@.lay.contains_key(k), !r.end ==> r.k == k { unimplemented!() }
    pub fn lay_end(&self) -> (r: TypIt) ensures r.end { TypIt { end: true, k: 0 } }
    #[verifier::external_body]
    pub fn lay_second(&self, i: TypIt) -> (r: LayRef) requires !i.end, self.g@.lay.contains_key(i.k) ensures r.k == i.k { unimplemented!() }
    #[verifier::external_body]
    pub fn lay_erase(&mut self, i: TypIt) requires !i.end, old(self).g@.lay.contains_key(i.k) ensures final(self).g@ == (G { lay: old(self).g@.lay.remove(i.k), ..old(self).g@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn lay_insert(&mut self, k: usize, refcount: i32, layout: usize) -> (r: TypIt)
        ensures !r.end, r.k == k, final(self).g@ == (if old(self).g@.lay.contains_key(k) { old(self).g@ } else { G { lay: old(self).g@.lay.insert(k, Lay { rc: refcount as int, of: layout }), ..old(self).g@ } })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_l_refcount(&self, l: LayRef) -> (r: i32) requires self.g@.lay.contains_key(l.k) ensures r == self.g@.lay[l.k].rc, -0x7FFF_FFFF < r < 0x7FFF_FFFF { unimplemented!() }
    #[verifier::external_body]
    pub fn set_l_refcount(&mut self, l: LayRef, v: i32) requires old(self).g@.lay.contains_key(l.k)
        ensures final(self).g@ == (G { lay: old(self).g@.lay.insert(l.k, Lay { rc: v as int, ..old(self).g@.lay[l.k] }), ..old(self).g@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_l_layout(&self, l: LayRef) -> (r: usize) requires self.g@.lay.contains_key(l.k) ensures r == self.g@.lay[l.k].of { unimplemented!() }
}
pub open spec fn dropped(g: G, z: usize) -> G { G { zn: g.zn.remove(z), obj: g.obj.restrict(g.obj.dom().filter(|v: usize| g.obj[v] != z)), out: g.out.remove(z), ..g } }

// ---- the users of an address: the zones at it, and the entries it is the root of
impl G {
    pub open spec fn e(self, p: usize) -> Ent { self.ent[self.tab[p]] }
    pub open spec fn live(self, p: usize) -> bool { self.tab.contains_key(p) && !self.dead.contains(p) }
    pub open spec fn zs(self, p: usize) -> Set<usize> { self.zn.dom().filter(|z: usize| self.zn[z] == p && !self.out.contains(z)) }
    pub open spec fn ch(self, p: usize) -> Set<usize> { self.tab.dom().filter(|q: usize| self.e(q).root == p && !self.dead.contains(q)) }
    pub open spec fn with_type(self, t: usize) -> Set<usize> { self.ty.dom().filter(|q: usize| self.ty[q] == t) }
    pub open spec fn users(self, p: usize) -> int { (self.zs(p).len() + self.ch(p).len()) as int }
    pub open spec fn top(self) -> bool { self.dead.len() == 0 && self.out.len() == 0 }
    pub open spec fn pending(self) -> nat { self.tab.dom().difference(self.dead).len() }
}
// owed: one user of this address is about to be removed (or about to be made); loose: memory nobody owns yet
pub open spec fn inv(g: G, owed: usize, loose: usize) -> bool {
    &&& !g.tab.contains_key(0) && !g.blk.contains_key(0)
    &&& forall|p: usize| #[trigger] g.tab.contains_key(p) ==> g.ent.contains_key(g.tab[p]) && g.e(p).born < g.clock
    &&& forall|p: usize, q: usize| #[trigger] g.tab.contains_key(p) && #[trigger] g.tab.contains_key(q) && p != q ==> g.tab[p] != g.tab[q]
    &&& forall|q: usize| #[trigger] g.live(q) && g.e(q).root != 0 ==> g.live(g.e(q).root) && g.e(g.e(q).root).born < g.e(q).born
    &&& forall|p: usize| #[trigger] g.live(p) ==> g.e(p).rc == g.users(p) + (if p == owed { 1int } else { 0 }) && g.e(p).rc >= 1
    &&& forall|z: usize| #[trigger] g.zn.contains_key(z) && !g.out.contains(z) && g.zn[z] != 0 ==> g.live(g.zn[z])
    &&& owed != 0 ==> g.live(owed)
    &&& forall|p: usize| #[trigger] g.live(p) && g.e(p).owned ==> g.blk.contains_key(p)
    &&& forall|p: usize| #[trigger] g.blk.contains_key(p) && p != loose ==> g.live(p) && g.e(p).owned
    &&& forall|p: usize| #[trigger] g.ty.contains_key(p) ==> g.tab.contains_key(p) && g.lay.contains_key(g.ty[p]) && (!g.dead.contains(p) ==> g.e(p).owned && g.blk[p] == Some(g.ty[p]))
    &&& forall|p: usize| #[trigger] g.blk.contains_key(p) && !g.ty.contains_key(p) ==> g.blk[p] is None
    &&& forall|t: usize| #[trigger] g.lay.contains_key(t) ==> g.lay[t].of == t && g.lay[t].rc == g.with_type(t).len() && g.lay[t].rc >= 1
    &&& forall|v: usize| #[trigger] g.obj.contains_key(v) ==> g.zn.contains_key(g.obj[v])
    &&& forall|v: usize, x: usize| #[trigger] g.obj.contains_key(v) && #[trigger] g.obj.contains_key(x) && v != x ==> g.obj[v] != g.obj[x]
}
pub open spec fn sound(g: G) -> bool { inv(g, 0, 0) && g.top() }
pub open spec fn rc_set(g: G, p: usize, n: int) -> G { G { ent: g.ent.insert(g.tab[p], Ent { rc: n, ..g.e(p) }), ..g } }
// everything but the table, the layouts and the memory of removed entries stays
pub open spec fn shrunk(a: G, b: G) -> bool {
    &&& b.zn == a.zn && b.obj == a.obj && b.iv == a.iv && b.own == a.own && b.cell == a.cell && b.wr == a.wr && b.vd == a.vd && b.dead == a.dead && b.out == a.out && b.clock == a.clock
    &&& forall|p: usize| #[trigger] b.tab.contains_key(p) ==> a.tab.contains_key(p) && b.tab[p] == a.tab[p] && b.e(p).owned == a.e(p).owned && b.e(p).root == a.e(p).root && b.e(p).born == a.e(p).born
    &&& forall|p: usize| #[trigger] b.blk.contains_key(p) ==> a.blk.contains_key(p) && b.blk[p] == a.blk[p]
    &&& forall|p: usize| #[trigger] b.ty.contains_key(p) ==> a.ty.contains_key(p) && b.ty[p] == a.ty[p]
    &&& forall|p: usize| #[trigger] a.ty.contains_key(p) && (b.live(p) || a.dead.contains(p)) ==> b.ty.contains_key(p)
    &&& forall|p: usize| #[trigger] a.tab.contains_key(p) && a.dead.contains(p) ==> b.tab.contains_key(p) && b.e(p) == a.e(p)
}
// the entry of p has no user any more; its memory is given back
pub open spec fn dying(g: G, p: usize) -> G { G { ent: g.ent.insert(g.tab[p], Ent { rc: 0, ..g.e(p) }), blk: if g.e(p).owned { g.blk.remove(p) } else { g.blk }, dead: g.dead.insert(p), ..g } }
pub open spec fn untyped(g: G, p: usize) -> G {
    if g.ty.contains_key(p) {
        let t = g.ty[p];
        G { ty: g.ty.remove(p), lay: if g.lay[t].rc == 1 { g.lay.remove(t) } else { g.lay.insert(t, Lay { rc: g.lay[t].rc - 1, ..g.lay[t] }) }, ..g }
    } else { g }
}
pub open spec fn buried(g: G, p: usize) -> G { let h = untyped(g, p); G { tab: h.tab.remove(p), ent: h.ent.remove(h.tab[p]), dead: h.dead.remove(p), ..h } }
pub proof fn lemma_less(g: G, p: usize)
    requires inv(g, p, 0), g.live(p), g.e(p).rc >= 2
    ensures inv(rc_set(g, p, g.e(p).rc - 1), 0, 0)
{
    let h = rc_set(g, p, g.e(p).rc - 1);
    assert forall|q: usize| #[trigger] h.live(q) implies h.zs(q) =~= g.zs(q) && h.ch(q) =~= g.ch(q) && g.live(q) by {}
}
pub proof fn lemma_dying(g: G, p: usize)
    requires inv(g, p, 0), p != 0, g.live(p), g.e(p).rc == 1
    ensures inv(dying(g, p), g.e(p).root, 0)
{
    let h = dying(g, p);
    let r = g.e(p).root;
    assert(g.zs(p).len() == 0 && g.ch(p).len() == 0);
    assert forall|q: usize| #[trigger] h.live(q) implies g.live(q) && h.e(q) == g.e(q) && h.e(q).rc == h.users(q) + (if q == r { 1int } else { 0 }) by {
        assert(g.live(q));
        assert(g.e(q).rc == g.users(q));
        assert(h.zs(q) =~= g.zs(q));
        if q == r { assert(g.ch(q).contains(p)); assert(h.ch(q) =~= g.ch(q).remove(p)); assert(h.users(q) == g.users(q) - 1); } else { assert(h.ch(q) =~= g.ch(q)); assert(h.users(q) == g.users(q)); }
    }
    assert forall|q: usize| #[trigger] h.live(q) && h.e(q).root != 0 implies h.live(h.e(q).root) && h.e(h.e(q).root).born < h.e(q).born by {
        assert(g.live(q));
        if h.e(q).root == p { assert(g.ch(p).contains(q)); }
    }
    assert forall|z: usize| #[trigger] h.zn.contains_key(z) && !h.out.contains(z) && h.zn[z] != 0 implies h.live(h.zn[z]) by {
        assert(g.live(g.zn[z]));
        if h.zn[z] == p { assert(g.zs(p).contains(z)); }
    }
    if r != 0 { assert(g.live(r)); }
}
pub proof fn lemma_buried(g: G, p: usize)
    requires inv(g, 0, 0), g.tab.contains_key(p), g.dead.contains(p)
    ensures inv(buried(g, p), 0, 0)
{
    let h = buried(g, p);
    assert forall|q: usize| #[trigger] h.live(q) implies g.live(q) && h.e(q) == g.e(q) && h.zs(q) =~= g.zs(q) && h.ch(q) =~= g.ch(q) by {
        assert forall|x: usize| h.ch(q).contains(x) == g.ch(q).contains(x) by {
            if x != p && g.tab.contains_key(x) { assert(h.e(x) == g.e(x)); }
        }
    }
    assert forall|q: usize| #[trigger] g.live(q) implies h.live(q) by {}
    if g.ty.contains_key(p) {
        let t = g.ty[p];
        assert(g.with_type(t).contains(p));
        assert(untyped(g, p).with_type(t) =~= g.with_type(t).remove(p));
        assert(h.with_type(t) =~= g.with_type(t).remove(p));
        assert forall|x: usize| x != t implies #[trigger] h.with_type(x) =~= g.with_type(x) by {}
        assert forall|q: usize| #[trigger] h.ty.contains_key(q) implies h.lay.contains_key(h.ty[q]) by {
            if h.ty[q] == t { assert(h.with_type(t).contains(q)); }
        }
    } else {
        assert forall|x: usize| #[trigger] h.with_type(x) =~= g.with_type(x) by {}
    }
}
pub proof fn lemma_bump(g: G, p: usize, take: bool, loose: usize)
    requires inv(g, 0, loose), g.live(p), take ==> loose == p && g.blk.contains_key(p) && g.blk[p] is None, !take ==> loose == 0, g.top()
    ensures ({ let h = rc_set(g, p, g.e(p).rc + 1); let k = G { ent: h.ent.insert(h.tab[p], Ent { owned: take || h.e(p).owned, ..h.e(p) }), ..h }; inv(k, p, 0) })
{
    let h = rc_set(g, p, g.e(p).rc + 1);
    let k = G { ent: h.ent.insert(h.tab[p], Ent { owned: take || h.e(p).owned, ..h.e(p) }), ..h };
    assert forall|q: usize| #[trigger] k.live(q) implies g.live(q) && k.zs(q) =~= g.zs(q) && k.ch(q) =~= g.ch(q) by {}
    assert forall|t: usize| #[trigger] k.lay.contains_key(t) implies k.with_type(t) =~= g.with_type(t) by {}
}
// an entry for p with the root r, whose count is already raised
pub open spec fn entered(g: G, p: usize, r: usize, owned: bool, e: usize) -> G {
    let h = if r != 0 { rc_set(g, r, g.e(r).rc + 1) } else { g };
    G { tab: h.tab.insert(p, e), ent: h.ent.insert(e, Ent { rc: 1, owned: owned, root: r, born: h.clock }), clock: h.clock + 1, ..h }
}
pub proof fn lemma_entered(g: G, p: usize, r: usize, owned: bool, e: usize)
    requires inv(g, 0, if owned { p } else { 0 }), g.top(), p != 0, !g.tab.contains_key(p), !g.ent.contains_key(e), forall|q: usize| g.tab.contains_key(q) ==> g.tab[q] != e,
        r != 0 ==> g.live(r) && !owned, p != r, owned ==> g.blk.contains_key(p) && g.blk[p] is None
    ensures inv(entered(g, p, r, owned, e), p, 0)
{
    let h = entered(g, p, r, owned, e);
    assert(g.dead =~= Set::<usize>::empty());
    assert forall|q: usize| g.tab.contains_key(q) implies #[trigger] h.tab[q] == g.tab[q] && h.e(q) == (if q == r { Ent { rc: g.e(q).rc + 1, ..g.e(q) } } else { g.e(q) }) by {}
    assert(h.e(p) == Ent { rc: 1, owned: owned, root: r, born: g.clock });
    assert forall|q: usize| #[trigger] h.live(q) implies h.e(q).rc == h.users(q) + (if q == p { 1int } else { 0 }) && h.e(q).rc >= 1 by {
        if q == p {
            assert forall|z: usize| !h.zs(p).contains(z) by { if h.zs(p).contains(z) { assert(g.zn.contains_key(z)); assert(g.live(p)); } }
            assert(h.zs(p) =~= Set::<usize>::empty());
            assert forall|x: usize| !h.ch(p).contains(x) by { if h.ch(p).contains(x) { if x != p { assert(g.live(x)); assert(g.live(p)); } } }
            assert(h.ch(p) =~= Set::<usize>::empty());
        } else {
            assert(g.live(q));
            assert(h.zs(q) =~= g.zs(q));
            if q == r { assert(h.ch(q) =~= g.ch(q).insert(p)); assert(!g.ch(q).contains(p)); } else { assert(h.ch(q) =~= g.ch(q)); }
        }
    }
    assert forall|q: usize| #[trigger] h.live(q) && h.e(q).root != 0 implies h.live(h.e(q).root) && h.e(h.e(q).root).born < h.e(q).born by {
        if q != p { assert(g.live(q)); assert(g.live(g.e(q).root)); }
    }
    assert forall|z: usize| #[trigger] h.zn.contains_key(z) && !h.out.contains(z) && h.zn[z] != 0 implies h.live(h.zn[z]) by { assert(g.live(g.zn[z])); }
    assert forall|q: usize| #[trigger] h.live(q) && h.e(q).owned implies h.blk.contains_key(q) by { if q != p { assert(g.live(q)); } }
    assert forall|q: usize| #[trigger] h.blk.contains_key(q) implies h.live(q) && h.e(q).owned by { if q != p { assert(g.live(q) && g.e(q).owned); } else if !owned { assert(g.blk.contains_key(q)); assert(g.live(q)); } }
    assert forall|t: usize| #[trigger] h.lay.contains_key(t) implies h.with_type(t) =~= g.with_type(t) by {}
}
pub open spec fn wrapped(g: G, p: usize, z: usize, v: usize) -> G { G { zn: g.zn.insert(z, p), obj: g.obj.insert(v, z), ..g } }
pub proof fn lemma_wrapped(g: G, p: usize, z: usize, v: usize)
    requires inv(g, p, 0), p != 0, !g.zn.contains_key(z), !g.out.contains(z), !g.obj.contains_key(v)
    ensures inv(wrapped(g, p, z, v), 0, 0)
{
    let h = wrapped(g, p, z, v);
    assert forall|q: usize| #[trigger] h.live(q) implies g.live(q) && h.e(q) == g.e(q) && h.e(q).rc == h.users(q) by {
        assert(h.ch(q) =~= g.ch(q));
        if q == p { assert(h.zs(q) =~= g.zs(q).insert(z)); assert(!g.zs(q).contains(z)); } else { assert(h.zs(q) =~= g.zs(q)); }
    }
    assert forall|t: usize| #[trigger] h.lay.contains_key(t) implies h.with_type(t) =~= g.with_type(t) by {}
}
pub open spec fn leaving(g: G, z: usize) -> G { G { out: g.out.insert(z), ..g } }
pub proof fn lemma_leaving(g: G, z: usize)
    requires inv(g, 0, 0), g.zn.contains_key(z), !g.out.contains(z)
    ensures inv(leaving(g, z), g.zn[z], 0)
{
    let h = leaving(g, z);
    if g.zn[z] != 0 { assert(g.live(g.zn[z])); }
    assert forall|q: usize| #[trigger] h.live(q) implies g.live(q) && h.e(q) == g.e(q) && h.e(q).rc == h.users(q) + (if q == g.zn[z] { 1int } else { 0 }) by {
        assert(g.live(q));
        assert(h.ch(q) =~= g.ch(q));
        if q == g.zn[z] { assert(g.zs(q).contains(z)); assert(h.zs(q) =~= g.zs(q).remove(z)); } else { assert(h.zs(q) =~= g.zs(q)); }
    }
    assert forall|t: usize| #[trigger] h.lay.contains_key(t) implies h.with_type(t) =~= g.with_type(t) by {}
}
pub proof fn lemma_dropped(g: G, z: usize, owed: usize)
    requires inv(g, owed, 0), g.zn.contains_key(z), g.out.contains(z)
    ensures inv(dropped(g, z), owed, 0)
{
    let h = dropped(g, z);
    assert forall|q: usize| #[trigger] h.live(q) implies g.live(q) && h.e(q) == g.e(q) && h.zs(q) =~= g.zs(q) && h.ch(q) =~= g.ch(q) by {}
    assert forall|t: usize| #[trigger] h.lay.contains_key(t) implies h.with_type(t) =~= g.with_type(t) by {}
}
pub open spec fn nulled(g: G, z: usize) -> G { G { zn: g.zn.insert(z, 0), ..g } }
pub proof fn lemma_nulled(g: G, z: usize, owed: usize)
    requires inv(g, owed, 0), g.zn.contains_key(z), g.out.contains(z)
    ensures inv(nulled(g, z), owed, 0)
{
    let h = nulled(g, z);
    assert forall|q: usize| #[trigger] h.live(q) implies g.live(q) && h.e(q) == g.e(q) && h.zs(q) =~= g.zs(q) && h.ch(q) =~= g.ch(q) by {}
    assert forall|t: usize| #[trigger] h.lay.contains_key(t) implies h.with_type(t) =~= g.with_type(t) by {}
}
pub proof fn lemma_back(g: G, z: usize)
    requires inv(g, 0, 0), g.zn.contains_key(z), g.zn[z] == 0
    ensures inv(G { out: g.out.remove(z), ..g }, 0, 0)
{
    let h = G { out: g.out.remove(z), ..g };
    assert forall|q: usize| #[trigger] h.live(q) implies g.live(q) && h.e(q) == g.e(q) && h.zs(q) =~= g.zs(q) && h.ch(q) =~= g.ch(q) by {}
    assert forall|t: usize| #[trigger] h.lay.contains_key(t) implies h.with_type(t) =~= g.with_type(t) by {}
}
pub open spec fn typed(g: G, p: usize, t: usize) -> G {
    let n = if g.lay.contains_key(t) { g.lay[t].rc } else { 0 };
    G { ty: g.ty.insert(p, t), lay: g.lay.insert(t, Lay { rc: n + 1, of: t }), blk: g.blk.insert(p, Some(t)), ..g }
}
pub proof fn lemma_typed(g: G, p: usize, t: usize)
    requires inv(g, 0, 0), g.live(p), g.e(p).owned, !g.ty.contains_key(p)
    ensures inv(typed(g, p, t), 0, 0)
{
    let h = typed(g, p, t);
    assert forall|q: usize| #[trigger] h.live(q) implies g.live(q) && h.e(q) == g.e(q) && h.zs(q) =~= g.zs(q) && h.ch(q) =~= g.ch(q) by {}
    assert(h.with_type(t) =~= g.with_type(t).insert(p));
    if !g.lay.contains_key(t) { assert forall|q: usize| !g.with_type(t).contains(q) by { if g.with_type(t).contains(q) { assert(g.ty.contains_key(q)); } } assert(g.with_type(t) =~= Set::<usize>::empty()); }
    assert forall|x: usize| x != t implies #[trigger] h.with_type(x) =~= g.with_type(x) by {}
}

//@fn memory_ref world=ruby filter=memory_ file=bindings/ruby/ext/memory.cc name=memory_ref
//@spec
    requires old(w).g@.tab.contains_key(ptr) ==> old(w).g@.ent.contains_key(old(w).g@.tab[ptr])
    ensures r == old(w).g@.tab.contains_key(ptr), final(w).g@ == (if r { rc_set(old(w).g@, ptr, old(w).g@.e(ptr).rc + 1) } else { old(w).g@ })
//@end
//@fn memory_delete world=ruby filter=memory_ file=bindings/ruby/ext/memory.cc name=memory_delete
//@spec
    requires old(w).g@.blk.contains_key(ptr),
        old(w).g@.ty.contains_key(ptr) ==> old(w).g@.lay.contains_key(old(w).g@.ty[ptr]) && old(w).g@.lay[old(w).g@.ty[ptr]].of == old(w).g@.ty[ptr] && old(w).g@.blk[ptr] == Some(old(w).g@.ty[ptr]),
        !old(w).g@.ty.contains_key(ptr) ==> old(w).g@.blk[ptr] is None
    ensures final(w).g@ == (G { blk: old(w).g@.blk.remove(ptr), ..old(w).g@ })
//@at entry
let ghost g0 = w.g@;
//@at end
proof { assert(w.g@.blk =~= g0.blk.remove(ptr)); }
//@end
//@fn memory_unref world=ruby throws=yes filter=memory_ file=bindings/ruby/ext/memory.cc name=memory_unref
//@spec
    requires inv(old(w).g@, ptr, 0), ptr != 0
    ensures r is Ok, inv(final(w).g@, 0, 0), shrunk(old(w).g@, final(w).g@)
    decreases old(w).g@.pending()
//@at entry
let ghost g0 = w.g@;
let ghost mut gm = dying(g0, ptr);
let ghost root = g0.e(ptr).root;
proof { assert(g0.live(ptr)); if g0.e(ptr).rc == 1 { lemma_dying(g0, ptr); } else { lemma_less(g0, ptr); } }
w.g = Ghost(G { dead: w.g@.dead.insert(ptr), ..w.g@ });
//@at call:memory_unref#1.before
proof { assert(w.g@ == dying(g0, ptr)); assert(w.g@.tab.dom().difference(w.g@.dead) =~= g0.tab.dom().difference(g0.dead).remove(ptr)); }
//@at call:memory_unref#1.after
proof { gm = w.g@; }
//@at return
w.g = Ghost(G { dead: w.g@.dead.remove(ptr), ..w.g@ });
proof {
    assert(w.g@.dead =~= g0.dead);
    if g0.e(ptr).rc == 1 {
        assert(shrunk(dying(g0, ptr), gm)); 
        lemma_buried(gm, ptr);
        let b = buried(gm, ptr);
        assert(w.g@.tab =~= b.tab); assert(w.g@.ent =~= b.ent); assert(w.g@.ty =~= b.ty); assert(w.g@.lay =~= b.lay); assert(w.g@.blk =~= b.blk); assert(w.g@.dead =~= b.dead); assert(w.g@ == b);
    } else {
        assert(w.g@.ent =~= rc_set(g0, ptr, g0.e(ptr).rc - 1).ent);
        assert(w.g@ == rc_set(g0, ptr, g0.e(ptr).rc - 1));
    }
}
//@end
//@fn memory_aset world=ruby throws=yes filter=memory_ file=bindings/ruby/ext/memory.cc name=memory_aset
//@spec
    requires inv(old(w).g@, 0, if owned { ptr } else { 0 }), old(w).g@.top(), ptr != 0,
        owned ==> old(w).g@.blk.contains_key(ptr) && old(w).g@.blk[ptr] is None,
        // an address that is registered keeps its root
        old(w).g@.tab.contains_key(ptr) ==> root_ptr == 0 || root_ptr == ptr || old(w).g@.e(ptr).root == root_ptr
    ensures
        r is Err ==> root_ptr != 0 && !old(w).g@.tab.contains_key(ptr) && (owned || root_ptr == ptr || !old(w).g@.tab.contains_key(root_ptr)) && final(w).g@ == old(w).g@,
        r is Ok ==> inv(final(w).g@, ptr, 0) && kept(old(w).g@, final(w).g@) && final(w).g@.zn == old(w).g@.zn && final(w).g@.obj == old(w).g@.obj && final(w).g@.blk == old(w).g@.blk && final(w).g@.len == old(w).g@.len
            && (owned ==> final(w).g@.e(ptr).owned) && (root_ptr != 0 && root_ptr != ptr ==> final(w).g@.e(ptr).root == root_ptr)
//@at entry
let ghost g0 = w.g@;
proof { assert(g0.dead =~= Set::<usize>::empty()); }
//@at return
proof {
    if g0.tab.contains_key(ptr) {
        assert(g0.live(ptr));
        lemma_bump(g0, ptr, owned, if owned { ptr } else { 0 });
        assert(w.g@.ent =~= G { ent: rc_set(g0, ptr, g0.e(ptr).rc + 1).ent.insert(g0.tab[ptr], Ent { owned: owned || g0.e(ptr).owned, rc: g0.e(ptr).rc + 1, ..g0.e(ptr) }), ..g0 }.ent);
    } else {
        assert(w.g@ == entered(g0, ptr, root_ptr, owned, entry));
        lemma_entered(g0, ptr, root_ptr, owned, entry);
    }
}
//@end
// addresses stay registered, with the same root, and the memory in use is the same
pub open spec fn kept(a: G, b: G) -> bool {
    &&& b.ty == a.ty && b.lay == a.lay && b.iv == a.iv && b.own == a.own && b.cell == a.cell && b.wr == a.wr && b.vd == a.vd && b.dead == a.dead && b.out == a.out
    &&& forall|p: usize| #[trigger] a.tab.contains_key(p) ==> b.tab.contains_key(p) && b.tab[p] == a.tab[p] && b.e(p).root == a.e(p).root && (a.e(p).owned ==> b.e(p).owned)
}
// ... and every zone keeps its address, every object its zone
pub open spec fn more(a: G, b: G) -> bool {
    &&& kept(a, b)
    &&& forall|z: usize| #[trigger] a.zn.contains_key(z) ==> b.zn.contains_key(z) && b.zn[z] == a.zn[z]
    &&& forall|v: usize| #[trigger] a.obj.contains_key(v) ==> b.obj.contains_key(v) && b.obj[v] == a.obj[v]
    &&& forall|p: usize| #[trigger] a.blk.contains_key(p) ==> b.blk.contains_key(p) && b.blk[p] == a.blk[p] && b.len[p] == a.len[p]
}
// the address of the zone of a Ruby object
pub open spec fn at(g: G, v: usize) -> usize { g.zn[g.obj[v]] }
//@fn memory_wrap world=ruby throws=yes filter=memory_ file=bindings/ruby/ext/memory.cc name=memory_wrap
//@spec
    requires inv(old(w).g@, 0, if take_ownership { ptr } else { 0 }), old(w).g@.top(), ptr != 0,
        take_ownership ==> old(w).g@.blk.contains_key(ptr) && old(w).g@.blk[ptr] is None,
        old(w).g@.tab.contains_key(ptr) ==> root_ptr == 0 || root_ptr == ptr || old(w).g@.e(ptr).root == root_ptr
    ensures
        r is Err ==> root_ptr != 0 && !old(w).g@.tab.contains_key(ptr) && (take_ownership || root_ptr == ptr || !old(w).g@.tab.contains_key(root_ptr)) && final(w).g@ == old(w).g@,
        r is Ok ==> sound(final(w).g@) && more(old(w).g@, final(w).g@) && final(w).g@.blk == old(w).g@.blk && final(w).g@.len == old(w).g@.len && final(w).g@.obj.contains_key(r->Ok_0) && !old(w).g@.obj.contains_key(r->Ok_0) && at(final(w).g@, r->Ok_0) == ptr
            && (take_ownership ==> final(w).g@.e(ptr).owned) && (root_ptr != 0 && root_ptr != ptr ==> final(w).g@.e(ptr).root == root_ptr)
//@at call:memory_aset#1.after
let ghost g1 = w.g@;
//@at call:wrap#1.after
proof { let v = $ret; let z = w.g@.obj[v]; assert(w.g@ == wrapped(g1, ptr, z, v)); lemma_wrapped(g1, ptr, z, v); }
//@end
//@fn memory_allocate world=ruby throws=yes filter=memory_ file=bindings/ruby/ext/memory.cc name=memory_allocate
//@spec
    requires sound(old(w).g@)
    ensures r is Ok, sound(final(w).g@), more(old(w).g@, final(w).g@), final(w).g@.obj.contains_key(r->Ok_0), !old(w).g@.obj.contains_key(r->Ok_0),
        ({ let p = at(final(w).g@, r->Ok_0); p != 0 && !old(w).g@.blk.contains_key(p) && final(w).g@.e(p).owned && final(w).g@.blk == old(w).g@.blk.insert(p, None) && final(w).g@.len[p] == size && !final(w).g@.ty.contains_key(p) && forall|v: usize| #[trigger] old(w).g@.wr.contains_key(v) ==> final(w).g@.vd[v] == old(w).g@.vd[v] })
//@at entry
let ghost g0 = w.g@;
proof { assert(g0.dead =~= Set::<usize>::empty()); }
//@at call:xmalloc#1.after
proof {
    let h = w.g@;
    if g0.ty.contains_key($ret) { assert(g0.live($ret)); }
    assert forall|q: usize| #[trigger] h.live(q) implies g0.live(q) && h.e(q) == g0.e(q) && h.zs(q) =~= g0.zs(q) && h.ch(q) =~= g0.ch(q) by {}
    assert forall|t: usize| #[trigger] h.lay.contains_key(t) implies h.with_type(t) =~= g0.with_type(t) by {}
    assert(inv(h, 0, $ret));
}
let ghost h0 = w.g@;
//@at return
proof {
    let b = w.g@;
    assert(more(h0, b));
    assert forall|x: usize| #[trigger] g0.tab.contains_key(x) implies b.tab.contains_key(x) && b.tab[x] == g0.tab[x] && b.e(x).root == g0.e(x).root && (g0.e(x).owned ==> b.e(x).owned) by { assert(h0.tab.contains_key(x)); }
    assert forall|x: usize| #[trigger] g0.zn.contains_key(x) implies b.zn.contains_key(x) && b.zn[x] == g0.zn[x] by { assert(h0.zn.contains_key(x)); }
    assert forall|x: usize| #[trigger] g0.obj.contains_key(x) implies b.obj.contains_key(x) && b.obj[x] == g0.obj[x] by { assert(h0.obj.contains_key(x)); }
    assert forall|x: usize| #[trigger] g0.blk.contains_key(x) implies b.blk.contains_key(x) && b.blk[x] == g0.blk[x] && b.len[x] == g0.len[x] by {}
}
//@end
//@fn memory_cptr world=ruby filter=memory_ file=bindings/ruby/ext/memory.cc name=memory_cptr
//@spec
    requires old(w).g@.obj.contains_key(ptr), old(w).g@.zn.contains_key(old(w).g@.obj[ptr])
    ensures *final(w) == *old(w), r == at(old(w).g@, ptr)
//@end
//@fn memory_init world=ruby throws=yes filter=memory_ file=bindings/ruby/ext/memory.cc name=memory_init
//@spec
    requires sound(old(w).g@), old(w).g@.obj.contains_key(ptr), ({ let p = at(old(w).g@, ptr); p != 0 && old(w).g@.e(p).owned && old(w).g@.len[p] >= type_size(type_obj(type_)) })
    ensures
        r is Err ==> final(w).g@ == old(w).g@,
        r is Ok ==> sound(final(w).g@) && !old(w).g@.ty.contains_key(at(old(w).g@, ptr)) && final(w).g@ == typed(old(w).g@, at(old(w).g@, ptr), type_obj(type_))
//@at entry
let ghost g0 = w.g@;
let ghost p = at(g0, ptr);
proof { assert(g0.zn.contains_key(g0.obj[ptr])); assert(g0.dead =~= Set::<usize>::empty()); assert(g0.out =~= Set::<usize>::empty()); assert(g0.live(p)); }
//@at end
proof { let t = type_obj(type_); lemma_typed(g0, p, t); let h = typed(g0, p, t); assert(w.g@.lay =~= h.lay); assert(w.g@.ty =~= h.ty); assert(w.g@.blk =~= h.blk); }
//@end
//@fn memory_zone_unref world=ruby throws=yes filter=memory_ file=bindings/ruby/ext/memory.cc name=memory_zone_unref
//@spec
    requires sound(old(w).g@), old(w).g@.zn.contains_key(ptr)
    ensures r is Ok, sound(final(w).g@), shrunk(dropped(old(w).g@, ptr), final(w).g@)
//@at entry
let ghost g0 = w.g@;
proof { assert(g0.out =~= Set::<usize>::empty()); lemma_leaving(g0, ptr); }
w.g = Ghost(leaving(w.g@, ptr));
let ghost mut owed = g0.zn[ptr];
//@at call:memory_unref#1.after
proof { owed = 0; }
//@at call:delete_zone#1.before
proof { lemma_dropped(w.g@, ptr, owed); }
//@at return
proof { assert(w.g@.out =~= g0.out); assert(w.g@.dead =~= g0.dead); assert(dropped(g0, ptr).out =~= g0.out); assert(w.g@.obj =~= dropped(g0, ptr).obj); }
//@end
//@fn memory_zone_invalidate world=ruby throws=yes filter=memory_ file=bindings/ruby/ext/memory.cc name=memory_zone_invalidate
//@spec
    requires sound(old(w).g@), old(w).g@.obj.contains_key(self_)
    ensures r is Ok, sound(final(w).g@), shrunk(G { zn: old(w).g@.zn.insert(old(w).g@.obj[self_], 0), ..old(w).g@ }, final(w).g@)
//@at entry
let ghost g0 = w.g@;
let ghost z = g0.obj[self_];
proof { assert(g0.zn.contains_key(z)); assert(g0.out =~= Set::<usize>::empty()); lemma_leaving(g0, z); }
w.g = Ghost(leaving(w.g@, z));
let ghost mut owed = g0.zn[z];
//@at call:memory_unref#1.after
proof { owed = 0; }
//@at call:set_z_ptr#1.before
proof { lemma_nulled(w.g@, z, owed); }
//@at return
proof { lemma_back(w.g@, z); }
w.g = Ghost(G { out: w.g@.out.remove(z), ..w.g@ });
proof { assert(w.g@.out =~= g0.out); assert(w.g@.zn =~= g0.zn.insert(z, 0)); }
//@end
//@fn memory_zone_address world=ruby filter=memory_ file=bindings/ruby/ext/memory.cc name=memory_zone_address
//@spec
    requires old(w).g@.obj.contains_key(self_), old(w).g@.zn.contains_key(old(w).g@.obj[self_])
    ensures *final(w) == *old(w), r == num(at(old(w).g@, self_))
//@end
//@fn memory_zone_to_ptr world=ruby throws=yes filter=memory_ file=bindings/ruby/ext/memory.cc name=memory_zone_to_ptr
//@spec
    requires sound(old(w).g@), old(w).g@.obj.contains_key(self_)
    ensures r is Ok, sound(final(w).g@), ({ let v = r->Ok_0; let p = at(final(w).g@, v);
        &&& final(w).g@.obj.contains_key(v) && !old(w).g@.obj.contains_key(v)
        &&& final(w).g@.blk == old(w).g@.blk.insert(p, None) && !old(w).g@.blk.contains_key(p) && final(w).g@.e(p).owned
        // the pointer leads to the memory of the wrapper, and the wrapper is kept
        &&& final(w).g@.cell[p] == at(old(w).g@, self_) && final(w).g@.iv[(v, "@pointed_to_memory"@)] == self_ })
//@at entry
let ghost g0 = w.g@;
//@at call:memory_allocate#1.after
proof { assert(w.g@.zn.contains_key(w.g@.obj[$ret])); assert(g0.zn.contains_key(g0.obj[self_])); assert(w.g@.obj.contains_key(self_)); assert(w.g@.zn.contains_key(w.g@.obj[self_])); }
//@at call:store_ptr#1.before
let ghost gs = w.g@;
//@at return
proof { lemma_same(gs, w.g@); }
//@end
//@fn string_to_memory_ptr world=ruby throws=yes filter=memory_ file=bindings/ruby/ext/memory.cc name=string_to_memory_ptr
//@spec
    requires sound(old(w).g@)
    ensures r is Ok, sound(final(w).g@), ({ let v = r->Ok_0;
        &&& final(w).g@.obj.contains_key(v) && !old(w).g@.obj.contains_key(v) && final(w).g@.blk == old(w).g@.blk
        &&& final(w).g@.own.contains(self_) && at(final(w).g@, v) == str_addr(self_) && final(w).g@.iv[(v, "@buffer_string"@)] == self_ })
//@at entry
let ghost g0 = w.g@;
//@at call:string_ptr#1.before
proof { lemma_same(g0, w.g@); }
//@at call:memory_wrap#1.after
let ghost gs = w.g@;
//@at return
proof { lemma_same(gs, w.g@); }
//@end
//@fn value_root_ptr world=ruby throws=yes filter=value_ file=bindings/ruby/ext/value.cc name=value_root_ptr
//@spec
    ensures *final(w) == *old(w), r is Ok && !truthy(value) ==> r->Ok_0 == 0, r is Ok && truthy(value) ==> r->Ok_0 == value_data(old(w).g@, root_of(old(w).g@, value))
//@at entry
let ghost v0 = value;
//@loop 1
    invariant *w == *old(w), truthy(value) ==> truthy(v0) && root_of(w.g@, value) == root_of(w.g@, v0),
        !truthy(value) && truthy(v0) ==> truthy(parent) && parent == root_of(w.g@, v0), !truthy(v0) ==> !truthy(parent)
    decreases (if truthy(value) { age(value) + 1 } else { 0 })
//@end
pub open spec fn wrappable(g: G, v: RV, parent: usize) -> bool {
    let rt = if truthy(parent) { value_data(g, root_of(g, parent)) } else { 0 };
    sound(g) && v.data != 0 && (rt != 0 ==> g.tab.contains_key(rt)) && (g.tab.contains_key(v.data) ==> rt == 0 || rt == v.data || g.e(v.data).root == rt)
}
// x is a new wrapper of v; it keeps its parent, and the address keeps the address of the root
pub open spec fn value_wrapped(g: G, h: G, v: RV, parent: usize, x: usize) -> bool {
    let rt = value_data(g, root_of(g, parent));
    &&& sound(h) && h.blk == g.blk && h.wr.contains_key(x) && !g.wr.contains_key(x) && h.obj.contains_key(h.wr[x]) && at(h, h.wr[x]) == v.data && value_data(h, x) == v.data
    &&& iv_of(h, x, "@parent"@) == parent
    &&& truthy(parent) && rt != 0 && rt != v.data ==> h.e(v.data).root == rt
}
//@fn value_wrap world=ruby throws=yes filter=value_ file=bindings/ruby/ext/value.cc name=value_wrap
//@spec
    requires wrappable(old(w).g@, v, parent)
    ensures r is Ok ==> value_wrapped(old(w).g@, final(w).g@, v, parent, r->Ok_0)
//@at entry
let ghost g0 = w.g@;
//@at call:memory_wrap#1.after
let ghost gs = w.g@;
//@at return
proof { lemma_same(gs, w.g@); reveal_strlit("@parent"); reveal_strlit("@__typelib_invalidated"); assert("@parent"@.len() != "@__typelib_invalidated"@.len()); }
//@end
//@fn get_pointer name=visit_ nparams=2 types=Value.*,.*Pointer world=ruby throws=yes filter=Ruby file=bindings/ruby/ext/convert.cc class=RubyGetter flat=m_value:&mut~usize,m_registry:usize,m_parent:usize
//@spec
    requires wrappable(old(w).g@, v, m_parent)
    ensures r is Ok ==> value_wrapped(old(w).g@, final(w).g@, v, m_parent, *final(m_value))
//@end
//@fn get_array name=visit_ nparams=2 types=Value.*,.*Array world=ruby throws=yes filter=Ruby file=bindings/ruby/ext/convert.cc class=RubyGetter flat=m_value:&mut~usize,m_registry:usize,m_parent:usize
//@spec
    requires wrappable(old(w).g@, v, m_parent)
    ensures r is Ok ==> value_wrapped(old(w).g@, final(w).g@, v, m_parent, *final(m_value))
//@end
//@fn get_compound name=visit_ nparams=2 types=Value.*,.*Compound world=ruby throws=yes filter=Ruby file=bindings/ruby/ext/convert.cc class=RubyGetter flat=m_value:&mut~usize,m_registry:usize,m_parent:usize
//@spec
    requires wrappable(old(w).g@, v, m_parent)
    ensures r is Ok ==> value_wrapped(old(w).g@, final(w).g@, v, m_parent, *final(m_value))
//@end
//@fn get_opaquetype name=visit_ nparams=2 types=Value.*,.*OpaqueType world=ruby throws=yes filter=Ruby file=bindings/ruby/ext/convert.cc class=RubyGetter flat=m_value:&mut~usize,m_registry:usize,m_parent:usize
//@spec
    requires wrappable(old(w).g@, v, m_parent)
    ensures r is Ok ==> value_wrapped(old(w).g@, final(w).g@, v, m_parent, *final(m_value))
//@end
//@fn get_container name=visit_ nparams=2 types=Value.*,.*Container world=ruby throws=yes filter=Ruby file=bindings/ruby/ext/convert.cc class=RubyGetter flat=m_value:&mut~usize,m_registry:usize,m_parent:usize
//@spec
    requires wrappable(old(w).g@, v, m_parent)
    ensures r is Ok ==> value_wrapped(old(w).g@, final(w).g@, v, m_parent, *final(m_value))
//@end
//@fn value_allocate world=ruby throws=yes filter=value_ file=bindings/ruby/ext/value.cc name=value_allocate
//@spec
    requires sound(old(w).g@)
    ensures r is Ok ==> sound(final(w).g@) && ({ let g = old(w).g@; let h = final(w).g@; let x = r->Ok_0; let p = value_data(h, x);
        &&& h.wr.contains_key(x) && !g.wr.contains_key(x) && h.obj.contains_key(h.wr[x]) && at(h, h.wr[x]) == p
        // new memory, big enough and initialized for the type
        &&& !g.blk.contains_key(p) && h.blk == g.blk.insert(p, Some(type_)) && h.len[p] == type_size(type_) && h.e(p).owned })
//@at entry
let ghost g0 = w.g@;
//@at call:memory_init#1.after
let ghost gs = w.g@;
//@at return
proof { lemma_same(gs, w.g@); assert(w.g@.blk =~= g0.blk.insert(at(gs, ptr), Some(type_))); }
//@end
// the invariant is about the table, the zones and the memory only
pub proof fn lemma_same(g: G, h: G)
    requires inv(g, 0, 0), h == (G { iv: h.iv, cell: h.cell, own: h.own, wr: h.wr, vd: h.vd, ..g })
    ensures inv(h, 0, 0)
{
    assert forall|q: usize| #[trigger] h.live(q) implies g.live(q) && h.e(q) == g.e(q) && h.zs(q) =~= g.zs(q) && h.ch(q) =~= g.ch(q) by {}
    assert forall|t: usize| #[trigger] h.lay.contains_key(t) implies h.with_type(t) =~= g.with_type(t) by {}
}
// ---- what the table is for
// the memory of a wrapper's address and of its root is there as long as the wrapper is, whoever allocated it
pub proof fn valid_while_used(g: G, v: usize)
    requires sound(g), g.obj.contains_key(v), at(g, v) != 0
    ensures ({ let p = at(g, v); let q = g.e(p).root;
        &&& g.tab.contains_key(p) && (g.e(p).owned ==> g.blk.contains_key(p))
        &&& q != 0 ==> g.tab.contains_key(q) && (g.e(q).owned ==> g.blk.contains_key(q)) })
{
    assert(g.zn.contains_key(g.obj[v]));
    assert(g.dead =~= Set::<usize>::empty() && g.out =~= Set::<usize>::empty());
    assert(g.live(at(g, v)));
}
// memory stays only where a zone, or an entry it is the root of, refers to it
pub proof fn released_when_unused(g: G, p: usize)
    requires sound(g), g.blk.contains_key(p)
    ensures (exists|z: usize| g.zn.contains_key(z) && #[trigger] g.zn[z] == p) || exists|q: usize| g.tab.contains_key(q) && (#[trigger] g.e(q)).root == p
{
    assert(g.live(p));
    if g.zs(p).len() > 0 { let z = g.zs(p).choose(); assert(g.zs(p).contains(z)); assert(g.zn[z] == p); } else { let q = g.ch(p).choose(); assert(g.ch(p).contains(q)); assert(g.e(q).root == p); }
}
// without zones no address is registered and no memory is left
pub proof fn nothing_left(g: G, n: nat)
    requires sound(g), forall|z: usize| #[trigger] g.zn.contains_key(z) ==> g.zn[z] == 0
    ensures forall|p: usize| #[trigger] g.tab.contains_key(p) ==> g.e(p).born + n < g.clock, n == g.clock ==> true
    decreases n
{
    if n > 0 {
        nothing_left(g, (n - 1) as nat);
        assert(g.dead =~= Set::<usize>::empty());
        assert forall|p: usize| #[trigger] g.tab.contains_key(p) implies g.e(p).born + n < g.clock by {
            assert(g.live(p));
            assert forall|z: usize| !g.zs(p).contains(z) by {}
            assert(g.zs(p) =~= Set::<usize>::empty());
            let q = g.ch(p).choose();
            assert(g.ch(p).contains(q));
            assert(g.live(q));
        }
    }
}
pub proof fn all_released(g: G)
    requires sound(g), forall|z: usize| #[trigger] g.zn.contains_key(z) ==> g.zn[z] == 0, forall|p: usize| #[trigger] g.tab.contains_key(p) ==> g.e(p).born >= 0
    ensures forall|p: usize| !#[trigger] g.tab.contains_key(p), forall|p: usize| !#[trigger] g.blk.contains_key(p)
{
    if exists|p: usize| #[trigger] g.tab.contains_key(p) { let p = choose|p: usize| #[trigger] g.tab.contains_key(p); assert(g.e(p).born < g.clock); nothing_left(g, g.clock as nat); }
    assert forall|p: usize| !#[trigger] g.blk.contains_key(p) by { if g.blk.contains_key(p) { assert(g.live(p)); } }
}

