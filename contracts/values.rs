//@include mem.rs
// ---------------------------------------------------------------- types, values, layouts
#[derive(Copy, Clone)]
pub struct TyRef { pub id: usize }
pub uninterp spec fn tpad(t: TyRef) -> int;
impl TyRef {
    #[verifier::external_body]
    pub fn getTrailingPadding(self) -> (r: u32) ensures r == tpad(self) { unimplemented!() }
}
// a value that is only read, and one that may be changed
pub struct CVal<'a> { pub p: CPtr<'a>, pub t: TyRef }
impl<'a> Copy for CVal<'a> {}
impl<'a> Clone for CVal<'a> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[derive(Copy, Clone)]
pub struct MVal { pub o: usize, pub t: TyRef }
// the cells of a type's layout under the given flags (decided for C04 and C05)
pub uninterp spec fn lcells(t: TyRef, pointers: bool, opaques: bool, merge: bool, trim: bool) -> Option<Seq<Cell>>;
pub open spec fn lok(l: &MemoryLayout) -> bool { blk(l.ops@, 0) is Some && be(l.ops@, 0) == l.ops@.len() }
pub open spec fn lc(l: &MemoryLayout) -> Seq<Cell> { bc(l.ops@, 0) }
// what the dump and load functions use
pub open spec fn tc(t: TyRef) -> Option<Seq<Cell>> { lcells(t, false, false, true, true) }
#[verifier::external_body]
pub fn layout_of(t: TyRef, pointers: bool, opaques: bool, merge: bool, trim: bool) -> (r: Result<MemoryLayout, Ex>)
    ensures r is Ok ==> lok(&r->Ok_0) && lcells(t, pointers, opaques, merge, trim) == Some(lc(&r->Ok_0)),
        r is Err ==> lcells(t, pointers, opaques, merge, trim) is None,
        layout_more(t, r)
{ unimplemented!() }
pub fn handle_eq(a: usize, b: usize) -> (r: bool) ensures r == (a == b) { a == b }
