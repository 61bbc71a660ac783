//@include maps.rs
// Types referred to by others are handles; what is asked of them is fixed while the functions under contract run.
pub struct TyRef { pub id: usize }
impl Copy for TyRef {}
impl Clone for TyRef { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
pub uninterp spec fn tsize(t: TyRef) -> usize;
pub uninterp spec fn tname(t: TyRef) -> Seq<u8>;
pub uninterp spec fn tcat(t: TyRef) -> u32;
pub uninterp spec fn tind(t: TyRef) -> TyRef;
pub uninterp spec fn tdim(t: TyRef) -> usize;
impl TyRef {
    #[verifier::external_body]
    pub fn getSize(self) -> (r: usize) ensures r == tsize(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn getName(self) -> (r: Vec<u8>) ensures r@ == tname(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn getCategory(self) -> (r: u32) ensures r == tcat(self), r <= 8 { unimplemented!() }
    #[verifier::external_body]
    pub fn getIndirection(self) -> (r: TyRef) requires tcat(self) == 1 || tcat(self) == 2 || tcat(self) == 7 ensures r == tind(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn getDimension(self) -> (r: usize) requires tcat(self) == 1 ensures r == tdim(self) { unimplemented!() }
}
pub struct Field { pub m_name: Vec<u8>, pub m_type: TyRef, pub m_offset: usize }
impl Field {
    // the constructor (its initialiser list)
    #[verifier::external_body]
    pub fn new(name: Vec<u8>, t: TyRef) -> (r: Field) ensures r.m_name@ == name@, r.m_type == t, r.m_offset == 0 { unimplemented!() }
}
#[verifier::external_body]
pub fn dup_field(f: &Field) -> (r: Field) ensures r == *f { unimplemented!() }
pub open spec fn fend(f: Field) -> int { f.m_offset + tsize(f.m_type) }
