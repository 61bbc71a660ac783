// Runtime library: what clang's AST nodes for the C++ standard library, raw memory and the virtual
// Container interface are translated to.  Everything marked external_body is a trusted contract.

global size_of usize == 8;
pub struct Ex {}
// plain char to int: char is signed on this platform
pub open spec fn sc(c: u8) -> int { if c < 128 { c as int } else { c as int - 256 } }
pub fn c2i(c: u8) -> (r: i32) ensures r == sc(c) { if c < 128 { c as i32 } else { c as i32 - 256 } }

// ---------------------------------------------------------------- iterators over vector<size_t>
pub struct OpIt<'a> { pub v: &'a Vec<usize>, pub i: usize }
impl<'a> Copy for OpIt<'a> {}
impl<'a> Clone for OpIt<'a> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<'a> OpIt<'a> {
    pub open spec fn ok(self) -> bool { self.i <= self.v@.len() }
    pub fn begin(v: &'a Vec<usize>) -> (r: OpIt<'a>) ensures r.v == v, r.i == 0 { OpIt { v: v, i: 0 } }
    pub fn end(v: &'a Vec<usize>) -> (r: OpIt<'a>) ensures r.v == v, r.i == v@.len() { OpIt { v: v, i: v.len() } }
    // *it: reading is only defined strictly inside the vector
    pub fn get(self) -> (r: usize) requires self.i < self.v@.len() ensures r == self.v@[self.i as int] { self.v[self.i] }
    // ++it: only defined before the end
    pub fn inc(&mut self) requires old(self).i < old(self).v@.len() ensures final(self).v == old(self).v, final(self).i == old(self).i + 1
    { let _l = self.v.len(); self.i = self.i + 1; }
    pub fn dec(&mut self) requires old(self).i > 0 ensures final(self).v == old(self).v, final(self).i == old(self).i - 1
    { self.i = self.i - 1; }
    pub fn plus<N: OffsetLike>(self, n: N) -> (r: OpIt<'a>)
        requires 0 <= self.i + n.off() <= self.v@.len()
        ensures r.v == self.v, r.i == self.i + n.off()
    { let _l = self.v.len(); OpIt { v: self.v, i: n.add_to(self.i) } }
    pub fn minus<N: OffsetLike>(self, n: N) -> (r: OpIt<'a>)
        requires 0 <= self.i - n.off() <= self.v@.len()
        ensures r.v == self.v, r.i == self.i - n.off()
    { let _l = self.v.len(); OpIt { v: self.v, i: n.sub_from(self.i) } }
}
pub trait OffsetLike: Sized {
    spec fn off(&self) -> int;
    fn add_to(self, i: usize) -> (r: usize) requires 0 <= i + self.off() <= usize::MAX ensures r == i + self.off();
    fn sub_from(self, i: usize) -> (r: usize) requires 0 <= i - self.off() <= usize::MAX ensures r == i - self.off();
}
impl OffsetLike for usize {
    open spec fn off(&self) -> int { *self as int }
    fn add_to(self, i: usize) -> usize { i + self }
    fn sub_from(self, i: usize) -> usize { i - self }
}
impl OffsetLike for i64 {
    open spec fn off(&self) -> int { *self as int }
    fn add_to(self, i: usize) -> usize { ((i as i128) + (self as i128)) as usize }
    fn sub_from(self, i: usize) -> usize { ((i as i128) - (self as i128)) as usize }
}
impl OffsetLike for i32 {
    open spec fn off(&self) -> int { *self as int }
    fn add_to(self, i: usize) -> usize { ((i as i128) + (self as i128)) as usize }
    fn sub_from(self, i: usize) -> usize { ((i as i128) - (self as i128)) as usize }
}
#[verifier::external_body]
pub fn it_diff(a: OpIt, b: OpIt) -> (r: i64) requires a.v == b.v, a.i <= a.v@.len(), b.i <= b.v@.len() ensures r == a.i - b.i, a.v@.len() <= 0x0FFF_FFFF_FFFF_FFFF
{ unimplemented!() }
// vectors of 8 byte words hold at most PTRDIFF_MAX / 8 elements
#[verifier::external_body]
pub broadcast proof fn axiom_vec_words(v: Vec<usize>) ensures #[trigger] v@.len() <= 0x0FFF_FFFF_FFFF_FFFFint {}
#[verifier::external_body]
pub broadcast proof fn axiom_vec_bytes(v: Vec<u8>) ensures #[trigger] v@.len() <= 0x7FFF_FFFF_FFFF_FFFEint {}

#[verifier::external_body]
pub fn arbitrary_usize() -> usize { unimplemented!() }
#[verifier::external_body]
pub fn arbitrary_bool() -> bool { unimplemented!() }
#[verifier::external_body]
pub fn arbitrary_i32() -> i32 { unimplemented!() }
#[verifier::external_body]
pub fn arbitrary_u8() -> u8 { unimplemented!() }
#[verifier::external_body]
pub fn arbitrary_u32() -> u32 { unimplemented!() }
#[verifier::external_body]
pub fn arbitrary_u16() -> u16 { unimplemented!() }
#[verifier::external_body]
pub fn arbitrary_i64() -> i64 { unimplemented!() }

// ---------------------------------------------------------------- std::vector
#[verifier::external_body]
pub fn vec_resize_usize(v: &mut Vec<usize>, n: usize)
    ensures final(v)@.len() == n,
        forall|i: int| 0 <= i < n && i < old(v)@.len() ==> #[trigger] final(v)@[i] == old(v)@[i],
        forall|i: int| old(v)@.len() <= i < n ==> #[trigger] final(v)@[i] == 0,
        n <= old(v)@.len() ==> final(v)@ == old(v)@.take(n as int)
{ unimplemented!() }
#[verifier::external_body]
pub fn vec_resize_u8(v: &mut Vec<u8>, n: usize)
    ensures final(v)@.len() == n,
        forall|i: int| 0 <= i < n && i < old(v)@.len() ==> #[trigger] final(v)@[i] == old(v)@[i],
        forall|i: int| old(v)@.len() <= i < n ==> #[trigger] final(v)@[i] == 0,
        n >= old(v)@.len() ==> final(v)@ == old(v)@ + Seq::new((n - old(v)@.len()) as nat, |i: int| 0u8),
        n <= old(v)@.len() ==> final(v)@ == old(v)@.take(n as int)
{ unimplemented!() }
#[verifier::external_body]
pub fn vec_pop_back<T>(v: &mut Vec<T>) requires old(v)@.len() > 0 ensures final(v)@ == old(v)@.drop_last()
{ unimplemented!() }
#[verifier::external_body]
pub fn vec_append_usize_from_words(v: &mut Vec<usize>, a: OpIt, b: OpIt)
    requires a.v == b.v, a.i <= b.i <= a.v@.len()
    ensures final(v)@ == old(v)@ + a.v@.subrange(a.i as int, b.i as int)
{ unimplemented!() }
pub open spec fn to_bytes(s: Seq<usize>) -> Seq<u8> { Seq::new(s.len(), |i: int| (s[i] % 256) as u8) }
pub open spec fn to_words(s: Seq<u8>) -> Seq<usize> { Seq::new(s.len(), |i: int| s[i] as usize) }
#[verifier::external_body]
pub fn vec_append_u8_from_words(v: &mut Vec<u8>, a: OpIt, b: OpIt)
    requires a.v == b.v, a.i <= b.i <= a.v@.len()
    ensures final(v)@ == old(v)@ + to_bytes(a.v@.subrange(a.i as int, b.i as int))
{ unimplemented!() }
pub struct It8<'a> { pub v: &'a Vec<u8>, pub i: usize }
impl<'a> Copy for It8<'a> {}
impl<'a> Clone for It8<'a> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<'a> It8<'a> {
    pub fn begin(v: &'a Vec<u8>) -> (r: It8<'a>) ensures r.v == v, r.i == 0 { It8 { v: v, i: 0 } }
    pub fn end(v: &'a Vec<u8>) -> (r: It8<'a>) ensures r.v == v, r.i == v@.len() { It8 { v: v, i: v.len() } }
}
#[verifier::external_body]
pub fn vec_append_usize_from_bytes(v: &mut Vec<usize>, a: It8, b: It8)
    requires a.v == b.v, a.i <= b.i <= a.v@.len()
    ensures final(v)@ == old(v)@ + to_words(a.v@.subrange(a.i as int, b.i as int))
{ unimplemented!() }
#[verifier::external_body]
pub fn dup_vec_usize(v: &Vec<usize>) -> (r: Vec<usize>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body]
pub fn dup_vec_u8(v: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == v@ { unimplemented!() }

// ---------------------------------------------------------------- bytecode constants (typelib/memory_layout.hh)
pub const FLAG_MEMCPY: usize = 0;
pub const FLAG_ARRAY: usize = 1;
pub const FLAG_CONTAINER: usize = 2;
pub const FLAG_SKIP: usize = 3;
pub const FLAG_END: usize = 4;
pub const FLAG_INIT: usize = 0;
pub const FLAG_INIT_REPEAT: usize = 1;
pub const FLAG_INIT_CONTAINER: usize = 2;
pub const FLAG_INIT_SKIP: usize = 3;
pub const FLAG_INIT_END: usize = 4;
// int converted to size_t as C++ defines it
#[verifier::external_body]
pub fn sx32(a: i32) -> (r: usize) ensures r == if a >= 0 { a as int } else { a + 0x1_0000_0000_0000_0000 } { a as i64 as usize }
