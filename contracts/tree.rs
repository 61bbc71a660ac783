//@include types.rs
// The structure of types: what a type refers to comes strictly before it (types are finite trees below their pointers).
pub const NullType: u32 = 0;
pub const Array: u32 = 1;
pub const Pointer: u32 = 2;
pub const Numeric: u32 = 3;
pub const Enum: u32 = 4;
pub const Compound: u32 = 5;
pub const Opaque: u32 = 6;
pub const Container: u32 = 7;
pub uninterp spec fn trank(t: TyRef) -> nat;
pub uninterp spec fn tfieldlist(t: TyRef) -> Vec<Field>;
pub open spec fn tfields(t: TyRef) -> Seq<Field> { tfieldlist(t)@ }
pub uninterp spec fn tvals(t: TyRef) -> SMap<i32>;
// dynamic_cast: an object of a category is of the class of that category
#[verifier::external_body]
pub fn as_nulltype(t: TyRef) -> (r: TyRef) requires tcat(t) == NullType ensures r == t { unimplemented!() }
#[verifier::external_body]
pub fn as_numeric(t: TyRef) -> (r: TyRef) requires tcat(t) == Numeric ensures r == t { unimplemented!() }
#[verifier::external_body]
pub fn as_enum(t: TyRef) -> (r: TyRef) requires tcat(t) == Enum ensures r == t { unimplemented!() }
#[verifier::external_body]
pub fn as_array(t: TyRef) -> (r: TyRef) requires tcat(t) == Array ensures r == t { unimplemented!() }
#[verifier::external_body]
pub fn as_pointer(t: TyRef) -> (r: TyRef) requires tcat(t) == Pointer ensures r == t { unimplemented!() }
#[verifier::external_body]
pub fn as_opaquetype(t: TyRef) -> (r: TyRef) requires tcat(t) == Opaque ensures r == t { unimplemented!() }
#[verifier::external_body]
pub fn as_compound(t: TyRef) -> (r: TyRef) requires tcat(t) == Compound ensures r == t { unimplemented!() }
impl TyRef {
    #[verifier::external_body]
    pub fn getFields(self) -> (r: &'static Vec<Field>) requires tcat(self) == Compound ensures *r == tfieldlist(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn values(self) -> (r: &'static SMap<i32>) requires tcat(self) == Enum ensures *r == tvals(self) { unimplemented!() }
}
pub open spec fn lend(t: TyRef, n: int) -> int { if n <= 0 { 0 } else { fend(tfields(t)[n - 1]) } }
// a type as typelib builds them: arrays are as big as their elements together, fields follow each other inside the compound
pub open spec fn wft(t: TyRef) -> bool
    decreases trank(t), tfields(t).len() + 1
{
    if tcat(t) == Enum { tsize(t) >= 1 && tvals(t).ok() }
    else if tcat(t) == Array { trank(tind(t)) < trank(t) && wft(tind(t)) && tsize(t) == tdim(t) * tsize(tind(t)) }
    else if tcat(t) == Container { trank(tind(t)) < trank(t) && wft(tind(t)) }
    else if tcat(t) == Compound { wff(t, tfields(t).len() as int) && lend(t, tfields(t).len() as int) <= tsize(t) }
    else { true }
}
pub open spec fn wff(t: TyRef, n: int) -> bool
    decreases trank(t), n
{
    if n <= 0 || n > tfields(t).len() { n == 0 }
    else {
        let f = tfields(t)[n - 1];
        wff(t, n - 1) && trank(f.m_type) < trank(t) && wft(f.m_type) && lend(t, n - 1) <= f.m_offset && fend(f) <= usize::MAX
    }
}
pub proof fn lemma_wff(t: TyRef, i: int, n: int)
    requires wff(t, n), 0 <= i <= n <= tfields(t).len()
    ensures wff(t, i), lend(t, i) <= lend(t, n), i < n ==> trank(tfields(t)[i].m_type) < trank(t) && wft(tfields(t)[i].m_type) && lend(t, i) <= tfields(t)[i].m_offset
        && fend(tfields(t)[i]) == lend(t, i + 1) && fend(tfields(t)[i]) <= lend(t, n)
    decreases n
{ if i < n { lemma_wff(t, i, n - 1); if i + 1 < n { lemma_wff(t, i + 1, n - 1); } } }
