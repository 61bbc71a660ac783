// std::set<Type const*> as the sequence of its elements in iteration order
pub struct TSet { pub v: Vec<TyRef> }
impl TSet {
    pub open spec fn has(self, t: TyRef) -> bool { exists|i: int| 0 <= i < self.v@.len() && #[trigger] self.v@[i] == t }
    #[verifier::external_body]
    pub fn new() -> (r: TSet) ensures r.v@.len() == 0, forall|x: TyRef| !#[trigger] r.has(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, t: TyRef) -> (r: bool) ensures r == !old(self).has(t), forall|x: TyRef| #[trigger] final(self).has(x) == (old(self).has(x) || x == t) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_range(&mut self, a: LIt<TyRef>, b: LIt<TyRef>)
        requires a.v == b.v, a.i <= b.i <= a.v@.len()
        ensures forall|x: TyRef| #[trigger] final(self).has(x) == (old(self).has(x) || exists|i: int| a.i <= i < b.i && #[trigger] a.v@[i] == x)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(&self, t: TyRef) -> (r: usize) ensures r == if self.has(t) { 1usize } else { 0usize } { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&mut self, o: &mut TSet) ensures *final(self) == *old(o), *final(o) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).v@.len() == 0, forall|x: TyRef| !#[trigger] final(self).has(x) { unimplemented!() }
}
