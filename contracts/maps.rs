//@include strs.rs
// std::set<std::string> and std::map<std::string, V> as sequences of distinct keys in iteration order.
pub type MX = usize;
pub fn inc_ix(i: usize, len: usize) -> (r: usize) requires i < len ensures r == i + 1 { i + 1 }
pub struct SSet { pub v: Vec<Vec<u8>> }
impl SSet {
    pub open spec fn has(self, k: Seq<u8>) -> bool { exists|i: int| 0 <= i < self.v@.len() && (#[trigger] self.v@[i])@ == k }
    #[verifier::external_body]
    pub fn new() -> (r: SSet) ensures r.v@.len() == 0, forall|x: Seq<u8>| !#[trigger] r.has(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Vec<u8>) -> (r: bool) ensures r == !old(self).has(k@), forall|x: Seq<u8>| #[trigger] final(self).has(x) == (old(self).has(x) || x == k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_range(&mut self, a: SIt, b: SIt)
        requires a.v == b.v, a.i <= b.i <= a.v@.len()
        ensures forall|x: Seq<u8>| #[trigger] final(self).has(x) == (old(self).has(x) || exists|i: int| a.i <= i < b.i && (#[trigger] a.v@[i])@ == x)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(&self, k: &Vec<u8>) -> (r: usize) ensures r == if self.has(k@) { 1usize } else { 0usize } { unimplemented!() }
    #[verifier::external_body]
    pub fn erase(&mut self, k: &Vec<u8>) -> (r: usize) ensures r == if old(self).has(k@) { 1usize } else { 0usize }, forall|x: Seq<u8>| #[trigger] final(self).has(x) == (old(self).has(x) && x != k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures forall|x: Seq<u8>| !#[trigger] final(self).has(x), final(self).v@.len() == 0 { unimplemented!() }
}
#[verifier::external_body]
pub fn dup_sset(s: &SSet) -> (r: SSet) ensures forall|x: Seq<u8>| #[trigger] r.has(x) == s.has(x) { unimplemented!() }
pub struct SMap<V> { pub v: Vec<(Vec<u8>, V)> }
impl<V> SMap<V> {
    // keys are distinct: the class invariant of the map
    pub open spec fn ok(self) -> bool { forall|i: int, j: int| 0 <= i < j < self.v@.len() ==> (#[trigger] self.v@[i]).0@ != (#[trigger] self.v@[j]).0@ }
    pub open spec fn has(self, k: Seq<u8>) -> bool { exists|i: int| 0 <= i < self.v@.len() && (#[trigger] self.v@[i]).0@ == k }
    pub open spec fn ix(self, k: Seq<u8>) -> int { choose|i: int| 0 <= i < self.v@.len() && (#[trigger] self.v@[i]).0@ == k }
    pub open spec fn at(self, k: Seq<u8>) -> V { self.v@[self.ix(k)].1 }
    pub proof fn lemma_at(self, i: int)
        requires self.ok(), 0 <= i < self.v@.len()
        ensures self.has(self.v@[i].0@), self.ix(self.v@[i].0@) == i, self.at(self.v@[i].0@) == self.v@[i].1
    {
        let k = self.v@[i].0@;
        let j = self.ix(k);
        assert(self.v@[i].0@ == k);
        if j < i { assert(self.v@[j].0@ != self.v@[i].0@); }
        if i < j { assert(self.v@[i].0@ != self.v@[j].0@); }
    }
    // changing values in place keeps the keys
    pub open spec fn same_keys(self, o: Self) -> bool { self.v@.len() == o.v@.len() && forall|i: int| 0 <= i < self.v@.len() ==> (#[trigger] self.v@[i]).0@ == o.v@[i].0@ }
    pub proof fn lemma_same_keys(self, o: Self)
        requires o.ok(), self.same_keys(o)
        ensures self.ok(), forall|k: Seq<u8>| #[trigger] self.has(k) == o.has(k), forall|k: Seq<u8>| o.has(k) ==> #[trigger] self.ix(k) == o.ix(k),
            forall|k: Seq<u8>| o.has(k) ==> #[trigger] self.at(k) == self.v@[o.ix(k)].1 && o.at(k) == o.v@[o.ix(k)].1 && o.v@[o.ix(k)].0@ == k && 0 <= o.ix(k) < o.v@.len()
    {
        assert forall|i: int, j: int| 0 <= i < j < self.v@.len() implies (#[trigger] self.v@[i]).0@ != (#[trigger] self.v@[j]).0@ by { assert(o.v@[i].0@ != o.v@[j].0@); }
        assert forall|k: Seq<u8>| #[trigger] self.has(k) == o.has(k) by {
            if self.has(k) { let i = self.ix(k); assert(self.v@[i].0@ == k); assert(o.v@[i].0@ == k); }
            if o.has(k) { let i = o.ix(k); assert(o.v@[i].0@ == k); assert(self.v@[i].0@ == k); }
        }
        assert forall|k: Seq<u8>| o.has(k) implies #[trigger] self.ix(k) == o.ix(k) by {
            let i = o.ix(k);
            assert(o.v@[i].0@ == k);
            assert(self.v@[i].0@ == k);
            self.lemma_at(i);
        }
        assert forall|k: Seq<u8>| o.has(k) implies #[trigger] self.at(k) == self.v@[o.ix(k)].1 && o.at(k) == o.v@[o.ix(k)].1 && o.v@[o.ix(k)].0@ == k && 0 <= o.ix(k) < o.v@.len() by {
            assert(self.ix(k) == o.ix(k));
        }
    }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.v@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn find(&self, k: &Vec<u8>) -> (r: MX)
        requires self.ok()
        ensures r <= self.v@.len(), r == self.v@.len() <==> !self.has(k@), r < self.v@.len() ==> self.v@[r as int].0@ == k@ && self.ix(k@) == r
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(&self, k: &Vec<u8>) -> (r: usize) requires self.ok() ensures r == if self.has(k@) { 1usize } else { 0usize } { unimplemented!() }
    // inserts unless the key is there
    #[verifier::external_body]
    pub fn insert(&mut self, kv: (Vec<u8>, V)) -> (r: (MX, bool))
        requires old(self).ok()
        ensures final(self).ok(), r.0 < final(self).v@.len(), final(self).v@[r.0 as int].0@ == kv.0@, final(self).ix(kv.0@) == r.0,
            r.1 == !old(self).has(kv.0@),
            !r.1 ==> *final(self) == *old(self),
            r.1 ==> final(self).v@[r.0 as int].1 == kv.1 && final(self).v@.remove(r.0 as int) == old(self).v@,
            forall|x: Seq<u8>| #[trigger] final(self).has(x) == (old(self).has(x) || x == kv.0@),
            forall|x: Seq<u8>| x != kv.0@ && old(self).has(x) ==> #[trigger] final(self).at(x) == old(self).at(x)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn erase(&mut self, k: &Vec<u8>) -> (r: usize)
        requires old(self).ok()
        ensures final(self).ok(), r == if old(self).has(k@) { 1usize } else { 0usize },
            forall|x: Seq<u8>| #[trigger] final(self).has(x) == (old(self).has(x) && x != k@),
            forall|x: Seq<u8>| x != k@ && old(self).has(x) ==> #[trigger] final(self).at(x) == old(self).at(x)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn erase_at(&mut self, i: MX)
        requires i < old(self).v@.len()
        ensures final(self).v@ == old(self).v@.remove(i as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).v@.len() == 0, final(self).ok(), forall|x: Seq<u8>| !#[trigger] final(self).has(x) { unimplemented!() }
}
// operator[]: a default value is inserted when the key is missing
impl SMap<SSet> {
    #[verifier::external_body]
    pub fn entry(&mut self, k: &Vec<u8>) -> (r: MX)
        requires old(self).ok()
        ensures final(self).ok(), r < final(self).v@.len(), final(self).v@[r as int].0@ == k@, final(self).ix(k@) == r,
            forall|x: Seq<u8>| #[trigger] final(self).has(x) == (old(self).has(x) || x == k@),
            old(self).has(k@) ==> *final(self) == *old(self),
            !old(self).has(k@) ==> forall|y: Seq<u8>| !#[trigger] final(self).v@[r as int].1.has(y),
            forall|x: Seq<u8>| old(self).has(x) ==> #[trigger] final(self).at(x) == old(self).at(x)
    { unimplemented!() }
}
impl SMap<i32> {
    #[verifier::external_body]
    pub fn entry(&mut self, k: &Vec<u8>) -> (r: MX)
        requires old(self).ok()
        ensures final(self).ok(), r < final(self).v@.len(), final(self).v@[r as int].0@ == k@, final(self).ix(k@) == r,
            forall|x: Seq<u8>| #[trigger] final(self).has(x) == (old(self).has(x) || x == k@),
            old(self).has(k@) ==> *final(self) == *old(self),
            !old(self).has(k@) ==> final(self).v@[r as int].1 == 0,
            forall|x: Seq<u8>| old(self).has(x) ==> #[trigger] final(self).at(x) == old(self).at(x)
    { unimplemented!() }
}
pub struct MIt<'a, V> { pub m: &'a SMap<V>, pub i: usize }
impl<'a, V> Copy for MIt<'a, V> {}
impl<'a, V> Clone for MIt<'a, V> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<'a, V> MIt<'a, V> {
    pub fn at(m: &'a SMap<V>, i: usize) -> (r: MIt<'a, V>) ensures r.m == m, r.i == i { MIt { m: m, i: i } }
    pub fn begin(m: &'a SMap<V>) -> (r: MIt<'a, V>) ensures r.m == m, r.i == 0 { MIt { m: m, i: 0 } }
    pub fn end(m: &'a SMap<V>) -> (r: MIt<'a, V>) ensures r.m == m, r.i == m.v@.len() { MIt { m: m, i: m.v.len() } }
    pub fn get(self) -> (r: &'a (Vec<u8>, V)) requires self.i < self.m.v@.len() ensures *r == self.m.v@[self.i as int] { &self.m.v[self.i] }
    pub fn inc(&mut self) requires old(self).i < old(self).m.v@.len() ensures final(self).m == old(self).m, final(self).i == old(self).i + 1
    { let _l = self.m.v.len(); self.i = self.i + 1; }
}
pub struct LIt<'a, T> { pub v: &'a Vec<T>, pub i: usize }
impl<'a, T> Copy for LIt<'a, T> {}
impl<'a, T> Clone for LIt<'a, T> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<'a, T> LIt<'a, T> {
    pub fn begin(v: &'a Vec<T>) -> (r: LIt<'a, T>) ensures r.v == v, r.i == 0 { LIt { v: v, i: 0 } }
    pub fn end(v: &'a Vec<T>) -> (r: LIt<'a, T>) ensures r.v == v, r.i == v@.len() { LIt { v: v, i: v.len() } }
    pub fn get(self) -> (r: &'a T) requires self.i < self.v@.len() ensures *r == self.v@[self.i as int] { &self.v[self.i] }
    pub fn inc(&mut self) requires old(self).i < old(self).v@.len() ensures final(self).v == old(self).v, final(self).i == old(self).i + 1
    { let _l = self.v.len(); self.i = self.i + 1; }
}
pub fn dec_ix(i: usize, len: usize) -> (r: usize) requires 0 < i <= len ensures r == i - 1 { i - 1 }
