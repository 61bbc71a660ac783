// std::map from types to types; never iterated: an insertion is modelled at the end, so that positions stay valid like the map's iterators do
pub struct PMap { pub v: Vec<(TyRef, TyRef)> }
impl PMap {
    pub open spec fn has(self, k: TyRef) -> bool { exists|i: int| 0 <= i < self.v@.len() && (#[trigger] self.v@[i]).0 == k }
    pub open spec fn ok(self) -> bool { forall|i: int, j: int| 0 <= i < j < self.v@.len() ==> (#[trigger] self.v@[i]).0 != (#[trigger] self.v@[j]).0 }
    pub open spec fn ix(self, k: TyRef) -> int { choose|i: int| 0 <= i < self.v@.len() && (#[trigger] self.v@[i]).0 == k }
    pub open spec fn at(self, k: TyRef) -> TyRef { self.v@[self.ix(k)].1 }
    #[verifier::external_body]
    pub fn new() -> (r: PMap) ensures r.v@.len() == 0, r.ok(), forall|k: TyRef| !#[trigger] r.has(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn find(&self, k: TyRef) -> (r: MX)
        requires self.ok()
        ensures r <= self.v@.len(), r == self.v@.len() <==> !self.has(k), r < self.v@.len() ==> self.v@[r as int].0 == k && self.ix(k) == r
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, kv: (TyRef, TyRef)) -> (r: (MX, bool))
        requires old(self).ok()
        ensures final(self).ok(), r.0 < final(self).v@.len(), final(self).v@[r.0 as int].0 == kv.0, r.1 == !old(self).has(kv.0),
            !r.1 ==> *final(self) == *old(self),
            r.1 ==> final(self).v@ == old(self).v@.push(kv) && r.0 == old(self).v@.len(),
            forall|x: TyRef| #[trigger] final(self).has(x) == (old(self).has(x) || x == kv.0),
            r.1 ==> final(self).at(kv.0) == kv.1,
            forall|x: TyRef| old(self).has(x) ==> #[trigger] final(self).at(x) == old(self).at(x)
    { unimplemented!() }
}
