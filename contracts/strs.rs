//@include prelude.rs
// std::string as a sequence of bytes.  Bodies marked external_body are the trusted contracts of libstdc++.
pub const NPOS: usize = 0xffff_ffff_ffff_ffff;
#[verifier::external_body]
pub broadcast proof fn axiom_str_len(v: Vec<u8>) ensures #[trigger] v@.len() <= 0x7FFF_FFFF_FFFF_FFFEint {}
// the first / last position whose character is (want) or is not (!want) in the set, from p on; -1 when none
pub open spec fn ff(s: Seq<u8>, set: Seq<u8>, p: int, want: bool) -> int decreases s.len() - p
{ if p < 0 || p >= s.len() { -1 } else if set.contains(s[p]) == want { p } else { ff(s, set, p + 1, want) } }
pub open spec fn fl(s: Seq<u8>, set: Seq<u8>, p: int, want: bool) -> int decreases p
{ if p < 0 || p >= s.len() { -1 } else if set.contains(s[p]) == want { p } else if p == 0 { -1 } else { fl(s, set, p - 1, want) } }
pub proof fn lemma_ff(s: Seq<u8>, set: Seq<u8>, p: int, want: bool)
    requires 0 <= p
    ensures ff(s, set, p, want) == -1 ==> forall|j: int| p <= j < s.len() ==> set.contains(#[trigger] s[j]) != want,
        ff(s, set, p, want) != -1 ==> p <= ff(s, set, p, want) < s.len() && set.contains(s[ff(s, set, p, want)]) == want
            && forall|j: int| p <= j < ff(s, set, p, want) ==> set.contains(#[trigger] s[j]) != want
    decreases s.len() - p
{ if p < s.len() && set.contains(s[p]) != want { lemma_ff(s, set, p + 1, want); } }
pub proof fn lemma_fl(s: Seq<u8>, set: Seq<u8>, p: int, want: bool)
    requires p < s.len()
    ensures fl(s, set, p, want) == -1 ==> forall|j: int| 0 <= j <= p ==> set.contains(#[trigger] s[j]) != want,
        fl(s, set, p, want) != -1 ==> 0 <= fl(s, set, p, want) <= p && set.contains(s[fl(s, set, p, want)]) == want
            && forall|j: int| fl(s, set, p, want) < j <= p ==> set.contains(#[trigger] s[j]) != want
    decreases p
{ if p > 0 && set.contains(s[p]) != want { lemma_fl(s, set, p - 1, want); } }
pub open spec fn pos_of(r: int) -> usize { if r < 0 { NPOS } else { r as usize } }
#[verifier::external_body]
pub fn str_find_first_of(s: &Vec<u8>, set: &Vec<u8>, pos: usize) -> (r: usize) ensures r == pos_of(ff(s@, set@, pos as int, true)), r == NPOS || pos <= r < s@.len() { unimplemented!() }
#[verifier::external_body]
pub fn str_find_first_not_of(s: &Vec<u8>, set: &Vec<u8>, pos: usize) -> (r: usize) ensures r == pos_of(ff(s@, set@, pos as int, false)), r == NPOS || pos <= r < s@.len() { unimplemented!() }
#[verifier::external_body]
pub fn str_find_last_of(s: &Vec<u8>, set: &Vec<u8>, pos: usize) -> (r: usize)
    ensures r == pos_of(fl(s@, set@, if pos >= s@.len() { s@.len() - 1 } else { pos as int }, true)), r == NPOS || (r <= pos && r < s@.len()) { unimplemented!() }
#[verifier::external_body]
pub fn str_find_last_not_of(s: &Vec<u8>, set: &Vec<u8>, pos: usize) -> (r: usize)
    ensures r == pos_of(fl(s@, set@, if pos >= s@.len() { s@.len() - 1 } else { pos as int }, false)), r == NPOS || (r <= pos && r < s@.len()) { unimplemented!() }
// first occurrence of t at or after p
pub open spec fn occurs(s: Seq<u8>, t: Seq<u8>, p: int) -> bool { 0 <= p && p + t.len() <= s.len() && s.subrange(p, p + t.len()) == t }
#[verifier::external_body]
pub fn str_find(s: &Vec<u8>, t: &Vec<u8>, pos: usize) -> (r: usize)
    ensures r == NPOS ==> forall|p: int| pos <= p ==> !occurs(s@, t@, p),
        r != NPOS ==> pos <= r && occurs(s@, t@, r as int) && forall|p: int| pos <= p < r ==> !occurs(s@, t@, p)
{ unimplemented!() }
// operator[]: reading position size() gives the terminator, beyond it is undefined
#[verifier::external_body]
pub fn str_at(s: &Vec<u8>, i: usize) -> (r: u8) requires i <= s@.len() ensures r == if i < s@.len() { s@[i as int] } else { 0u8 } { unimplemented!() }
pub open spec fn chr_at(s: Seq<u8>, i: int) -> u8 { if 0 <= i < s.len() { s[i] } else { 0u8 } }
pub open spec fn sub_end(s: Seq<u8>, pos: int, n: int) -> int { if pos + n < s.len() { pos + n } else { s.len() as int } }
#[verifier::external_body]
pub fn str_sub(s: &Vec<u8>, pos: usize, n: usize) -> (r: Result<Vec<u8>, Ex>)
    ensures r is Err <==> pos > s@.len(), r is Ok ==> r->Ok_0@ == s@.subrange(pos as int, sub_end(s@, pos as int, n as int))
{ unimplemented!() }
// a substring whose start is known to be inside the string does not throw
pub fn str_sub_ok(s: &Vec<u8>, pos: usize, n: usize) -> (r: Vec<u8>)
    requires pos <= s@.len()
    ensures r@ == s@.subrange(pos as int, sub_end(s@, pos as int, n as int))
{ match str_sub(s, pos, n) { Ok(v) => v, Err(_) => { assert(false); Vec::new() } } }
#[verifier::external_body]
pub fn str_cat(a: &Vec<u8>, b: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn str_chr(c: u8) -> (r: Vec<u8>) ensures r@ == seq![c] { unimplemented!() }
#[verifier::external_body]
pub fn str_eq(a: &Vec<u8>, b: &Vec<u8>) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
// the C locale
pub open spec fn alnum(c: u8) -> bool { (48 <= c <= 57) || (65 <= c <= 90) || (97 <= c <= 122) }
#[verifier::external_body]
pub fn c_isalnum(c: i32) -> (r: i32) ensures (r != 0) == (0 <= c < 128 && alnum(c as u8)) { unimplemented!() }
// unsigned subtraction and narrowing as C++ defines them (functions that declare wrap=yes)
#[verifier::external_body]
pub fn usub(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a - b } else { a - b + 0x1_0000_0000_0000_0000 } { a.wrapping_sub(b) }
#[verifier::external_body]
pub fn low32(a: usize) -> (r: i32) ensures (r as int - a as int) % 0x1_0000_0000 == 0 { a as i32 }
#[verifier::external_body]
pub fn low8(a: usize) -> (r: u8) ensures r == a % 256 { a as u8 }
// decimal numbers
pub open spec fn dec(n: nat) -> Seq<u8> decreases n { if n < 10 { seq![(48 + n) as u8] } else { dec(n / 10) + seq![(48 + n % 10) as u8] } }
pub open spec fn sdec(n: int) -> Seq<u8> { if n < 0 { seq![45u8] + dec((-n) as nat) } else { dec(n as nat) } }
pub open spec fn digit(c: u8) -> bool { 48 <= c <= 57 }
pub open spec fn digits(s: Seq<u8>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i]) }
pub open spec fn dval(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { dval(s.drop_last()) * 10 + (s.last() - 48) as nat } }
pub proof fn lemma_dec(n: nat) ensures digits(dec(n)), dval(dec(n)) == n decreases n
{
    if n < 10 { let s = dec(n); assert(s.drop_last() =~= Seq::<u8>::empty()); assert(dval(s.drop_last()) == 0); }
    else { lemma_dec(n / 10); let s = dec(n); assert(s.drop_last() =~= dec(n / 10)); }
}
#[verifier::external_body]
pub fn str_to_i32(s: &Vec<u8>) -> (r: Result<i32, Ex>)
    ensures digits(s@) ==> (r is Ok <==> dval(s@) <= 0x7fff_ffff) && (r is Ok ==> r->Ok_0 == dval(s@))
{ unimplemented!() }
// std::ostringstream
pub struct OStr { pub v: Vec<u8> }
impl OStr {
    pub fn new() -> (r: OStr) ensures r.v@ == Seq::<u8>::empty() { OStr { v: Vec::new() } }
    #[verifier::external_body]
    pub fn put_str(&mut self, s: &Vec<u8>) ensures final(self).v@ == old(self).v@ + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn put_chr(&mut self, c: u8) ensures final(self).v@ == old(self).v@ + seq![c] { unimplemented!() }
    #[verifier::external_body]
    pub fn put_int(&mut self, n: i128) ensures final(self).v@ == old(self).v@ + sdec(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn str(&self) -> (r: Vec<u8>) ensures r@ == self.v@ { unimplemented!() }
}
#[verifier::external_body]
pub fn vec_push_front<T>(v: &mut Vec<T>, e: T) ensures final(v)@ == seq![e] + old(v)@ { unimplemented!() }

// ---------------------------------------------------------------- std::list<std::string>
pub struct SIt<'a> { pub v: &'a Vec<Vec<u8>>, pub i: usize }
impl<'a> Copy for SIt<'a> {}
impl<'a> Clone for SIt<'a> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<'a> SIt<'a> {
    pub fn begin(v: &'a Vec<Vec<u8>>) -> (r: SIt<'a>) ensures r.v == v, r.i == 0 { SIt { v: v, i: 0 } }
    pub fn end(v: &'a Vec<Vec<u8>>) -> (r: SIt<'a>) ensures r.v == v, r.i == v@.len() { SIt { v: v, i: v.len() } }
    pub fn get(self) -> (r: &'a Vec<u8>) requires self.i < self.v@.len() ensures *r == self.v@[self.i as int] { &self.v[self.i] }
    pub fn inc(&mut self) requires old(self).i < old(self).v@.len() ensures final(self).v == old(self).v, final(self).i == old(self).i + 1
    { let _l = self.v.len(); self.i = self.i + 1; }
}
#[verifier::external_body]
pub fn vec_back<T: Clone>(v: &Vec<T>) -> (r: T) requires v@.len() > 0 ensures r == v@.last() { unimplemented!() }
#[verifier::external_body]
pub fn dup_vec_vec_u8(v: &Vec<Vec<u8>>) -> (r: Vec<Vec<u8>>) ensures r@ == v@ { unimplemented!() }
pub open spec fn svw(v: Seq<Vec<u8>>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i]@) }
