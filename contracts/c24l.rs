//@include csv.rs
// The columns of a CSV line: the text of every scalar of a value, in the order of the value.
pub struct VRef { pub p: usize, pub t: TyRef }
impl Copy for VRef {}
impl Clone for VRef { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
pub struct NRef { pub p: usize, pub size: usize, pub cat: u32 }
impl Copy for NRef {}
impl Clone for NRef { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl NRef { pub fn at(p: usize, size: usize, cat: u32) -> (r: NRef) ensures r == (NRef { p, size, cat }) { NRef { p, size, cat } } }
#[verifier::external_body]
pub fn arbitrary_vec_usize() -> Vec<usize> { unimplemented!() }
pub const SInt: u32 = 8;
pub const UInt: u32 = 9;
pub const Float: u32 = 10;
pub uninterp spec fn tnum(t: TyRef) -> u32;
impl TyRef {
    #[verifier::external_body]
    pub fn getNumericCategory(self) -> (r: u32) requires tcat(self) == Numeric ensures r == tnum(self), r <= 11 { unimplemented!() }
}
// memory does not change while a line is written: the integer at an address, the pointer at an address,
// the text boost::lexical_cast gives for the number at an address
pub uninterp spec fn nint(n: NRef) -> int;
pub uninterp spec fn paddr(p: usize) -> usize;
pub uninterp spec fn nstr(n: NRef) -> Seq<u8>;
#[verifier::external_body]
pub fn nref_int(n: NRef) -> (r: i32) requires n.cat != Float, n.size <= 2 || (n.size == 4 && n.cat == SInt) ensures r == nint(n) { unimplemented!() }
#[verifier::external_body]
pub fn nref_str(n: NRef) -> (r: Vec<u8>) ensures r@ == lexical(n) { unimplemented!() }
#[verifier::external_body]
pub fn ptr_at(p: usize) -> (r: usize) ensures r == paddr(p) { unimplemented!() }
pub open spec fn ntext(n: NRef, as_numeric: bool) -> Seq<u8> { if n.size == 1 && n.cat != Float && as_numeric { sdec(nint(n)) } else { lexical(n) } }
pub open spec fn lexical(n: NRef) -> Seq<u8> { if n.cat == Float { nstr(n) } else if n.size == 1 { seq![(nint(n) % 256) as u8] } else { sdec(nint(n)) } }
#[verifier::external_body]
pub fn temp_pointer(t: TyRef) -> (r: TyRef) ensures tcat(r) == Pointer, tind(r) == t { unimplemented!() }
// the symbol of a value, if it has one
pub uninterp spec fn hassym(t: TyRef, v: int) -> bool;
pub uninterp spec fn symbol(t: TyRef, v: int) -> Seq<u8>;
impl TyRef {
    #[verifier::external_body]
    pub fn enum_get(self, v: i32) -> (r: Result<Vec<u8>, Ex>) requires tcat(self) == Enum ensures r is Ok <==> hassym(self, v as int), r is Ok ==> r->Ok_0@ == symbol(self, v as int) { unimplemented!() }
}
pub open spec fn etext(t: TyRef, v: int) -> Seq<u8> { if hassym(t, v) { symbol(t, v) } else { sdec(v) } }
pub open spec fn num(p: usize, t: TyRef) -> NRef { NRef { p, size: tsize(t), cat: tnum(t) } }
pub open spec fn enumval(p: usize) -> int { nint(NRef { p, size: 4, cat: SInt }) }
// values that can be shown: numbers of the sizes the machine has, the parts of the value inside the address space
pub open spec fn okl(t: TyRef, p: usize) -> bool decreases trank(t), 0nat, tfields(t).len() + 3
{
    if tcat(t) == Numeric { if tnum(t) == Float { tsize(t) == 4 || tsize(t) == 8 } else { (tnum(t) == SInt || tnum(t) == UInt) && (tsize(t) == 1 || tsize(t) == 2 || tsize(t) == 4 || tsize(t) == 8) } }
    else if tcat(t) == Enum || tcat(t) == Opaque { true }
    else if tcat(t) == Pointer { trank(tind(t)) < trank(t) && okl(tind(t), paddr(p)) }
    else if tcat(t) == Array { trank(tind(t)) < trank(t) && p + tdim(t) * tsize(tind(t)) <= usize::MAX && okla(tind(t), p, tdim(t) as int) }
    else if tcat(t) == Compound { oklf(t, p, tfields(t).len() as int) }
    else { false }
}
pub open spec fn at(p: usize, o: int) -> usize { (p + o) as usize }
pub open spec fn okla(e: TyRef, p: usize, n: int) -> bool decreases trank(e), 1nat, n
{ if n <= 0 { true } else { okla(e, p, n - 1) && okl(e, at(p, (n - 1) * tsize(e))) } }
pub open spec fn oklf(t: TyRef, p: usize, n: int) -> bool decreases trank(t), 0nat, n
{ if n <= 0 || n > tfields(t).len() { n == 0 } else { let f = tfields(t)[n - 1]; oklf(t, p, n - 1) && trank(f.m_type) < trank(t) && p + f.m_offset <= usize::MAX && okl(f.m_type, at(p, f.m_offset as int)) } }
pub proof fn lemma_okla(e: TyRef, p: usize, i: int, n: int)
    requires okla(e, p, n), 0 <= i < n
    ensures okl(e, at(p, i * tsize(e)))
    decreases n
{ if i < n - 1 { lemma_okla(e, p, i, n - 1); } }
pub proof fn lemma_oklf(t: TyRef, p: usize, i: int, n: int)
    requires oklf(t, p, n), 0 <= i < n <= tfields(t).len()
    ensures trank(tfields(t)[i].m_type) < trank(t), p + tfields(t)[i].m_offset <= usize::MAX, okl(tfields(t)[i].m_type, at(p, tfields(t)[i].m_offset as int))
    decreases n
{ if i < n - 1 { lemma_oklf(t, p, i, n - 1); } }
pub open spec fn rows(t: TyRef, p: usize, cn: bool) -> Seq<Seq<u8>> decreases trank(t), 0nat, tfields(t).len() + 3
{
    if tcat(t) == Numeric { seq![ntext(num(p, t), cn)] }
    else if tcat(t) == Enum { seq![etext(t, enumval(p))] }
    else if tcat(t) == Opaque { seq![seq![60u8] + tname(t) + seq![62u8]] }
    else if tcat(t) == Pointer { if trank(tind(t)) < trank(t) { rows(tind(t), paddr(p), cn) } else { Seq::empty() } }
    else if tcat(t) == Array { if trank(tind(t)) < trank(t) { arows(tind(t), p, cn, tdim(t) as int) } else { Seq::empty() } }
    else if tcat(t) == Compound { frows(t, p, cn, tfields(t).len() as int) }
    else { Seq::empty() }
}
pub open spec fn arows(e: TyRef, p: usize, cn: bool, n: int) -> Seq<Seq<u8>> decreases trank(e), 1nat, n
{ if n <= 0 { Seq::empty() } else { arows(e, p, cn, n - 1) + rows(e, at(p, (n - 1) * tsize(e)), cn) } }
pub open spec fn frows(t: TyRef, p: usize, cn: bool, n: int) -> Seq<Seq<u8>> decreases trank(t), 0nat, n
{ if n <= 0 || n > tfields(t).len() || trank(tfields(t)[n - 1].m_type) >= trank(t) { Seq::empty() } else { frows(t, p, cn, n - 1) + rows(tfields(t)[n - 1].m_type, at(p, tfields(t)[n - 1].m_offset as int), cn) } }
// ---- the theorem: column i of the header names the scalar that column i of a line shows
pub struct Col { pub name: Seq<u8>, pub t: TyRef, pub p: usize }
pub open spec fn shown(c: Col, cn: bool) -> Seq<u8> { if tcat(c.t) == Numeric { ntext(num(c.p, c.t), cn) } else if tcat(c.t) == Enum { etext(c.t, enumval(c.p)) } else { seq![60u8] + tname(c.t) + seq![62u8] } }
pub open spec fn cols(t: TyRef, s: Seq<u8>, p: usize) -> Seq<Col> decreases trank(t), 0nat, tfields(t).len() + 3
{
    if tcat(t) == Numeric || tcat(t) == Enum || tcat(t) == Opaque { seq![Col { name: s, t, p }] }
    else if tcat(t) == Pointer { if trank(tind(t)) < trank(t) { cols(tind(t), derefd(s), paddr(p)) } else { Seq::empty() } }
    else if tcat(t) == Array { if trank(tind(t)) < trank(t) { acols(tind(t), s, p, tdim(t) as int) } else { Seq::empty() } }
    else if tcat(t) == Compound { fcols(t, dotted(s), p, tfields(t).len() as int) }
    else { Seq::empty() }
}
pub open spec fn acols(e: TyRef, s: Seq<u8>, p: usize, n: int) -> Seq<Col> decreases trank(e), 1nat, n
{ if n <= 0 { Seq::empty() } else { acols(e, s, p, n - 1) + cols(e, indexed(s, n - 1), at(p, (n - 1) * tsize(e))) } }
pub open spec fn fcols(t: TyRef, s: Seq<u8>, p: usize, n: int) -> Seq<Col> decreases trank(t), 0nat, n
{ if n <= 0 || n > tfields(t).len() || trank(tfields(t)[n - 1].m_type) >= trank(t) { Seq::empty() } else { fcols(t, s, p, n - 1) + cols(tfields(t)[n - 1].m_type, s + tfields(t)[n - 1].m_name@, at(p, tfields(t)[n - 1].m_offset as int)) } }
pub open spec fn agree(h: Seq<Seq<u8>>, l: Seq<Seq<u8>>, c: Seq<Col>, cn: bool) -> bool { h =~= c.map_values(|x: Col| x.name) && l =~= c.map_values(|x: Col| shown(x, cn)) }
pub proof fn lemma_same_columns(t: TyRef, s: Seq<u8>, p: usize, cn: bool)
    requires okl(t, p)
    ensures agree(heads(t, s), rows(t, p, cn), cols(t, s, p), cn), heads(t, s).len() == rows(t, p, cn).len()
    decreases trank(t), 0nat, tfields(t).len() + 3
{
    if tcat(t) == Pointer { lemma_same_columns(tind(t), derefd(s), paddr(p), cn); }
    else if tcat(t) == Array { lemma_same_elements(tind(t), s, p, cn, tdim(t) as int); }
    else if tcat(t) == Compound { lemma_same_fields(t, dotted(s), p, cn, tfields(t).len() as int); }
}
pub proof fn lemma_same_elements(e: TyRef, s: Seq<u8>, p: usize, cn: bool, n: int)
    requires okla(e, p, n), n >= 0
    ensures agree(aheads(e, s, n), arows(e, p, cn, n), acols(e, s, p, n), cn)
    decreases trank(e), 1nat, n
{ if n > 0 { lemma_same_elements(e, s, p, cn, n - 1); lemma_same_columns(e, indexed(s, n - 1), at(p, (n - 1) * tsize(e)), cn); } }
pub proof fn lemma_same_fields(t: TyRef, s: Seq<u8>, p: usize, cn: bool, n: int)
    requires oklf(t, p, n), n >= 0
    ensures agree(fheads(t, s, n), frows(t, p, cn, n), fcols(t, s, p, n), cn)
    decreases trank(t), 0nat, n
{ if n > 0 { lemma_same_fields(t, s, p, cn, n - 1); lemma_same_columns(tfields(t)[n - 1].m_type, s + tfields(t)[n - 1].m_name@, at(p, tfields(t)[n - 1].m_offset as int), cn); } }
pub proof fn lemma_push_one(s: Seq<Seq<u8>>, e: Seq<u8>) ensures s.push(e) == s + seq![e] { assert(s.push(e) =~= s + seq![e]); }
pub proof fn lemma_step(i: int, n: int, s: int) requires 0 <= i < n, 0 <= s ensures 0 <= i * s, s * i == i * s, i * s + s <= n * s { assert(0 <= i * s && s * i == i * s && i * s + s <= n * s) by(nonlinear_arith) requires 0 <= i < n, 0 <= s; }
//@fn disp_signed_char name=display file=typelib/csvoutput.cc class=LineVisitor filter=Visitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=LineVisitor,ValueVisitor nval=value targs=signed~char
//@spec
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@).push(lexical(value))

//@at return#1
    proof { assert(svw(m_output@) =~= svw(old(m_output)@).push(lexical(value))); }
//@end
//@fn disp_unsigned_char name=display file=typelib/csvoutput.cc class=LineVisitor filter=Visitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=LineVisitor,ValueVisitor nval=value targs=unsigned~char
//@spec
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@).push(lexical(value))

//@at return#1
    proof { assert(svw(m_output@) =~= svw(old(m_output)@).push(lexical(value))); }
//@end
//@fn disp_short name=display file=typelib/csvoutput.cc class=LineVisitor filter=Visitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=LineVisitor,ValueVisitor nval=value targs=short
//@spec
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@).push(lexical(value))

//@at return#1
    proof { assert(svw(m_output@) =~= svw(old(m_output)@).push(lexical(value))); }
//@end
//@fn disp_unsigned_short name=display file=typelib/csvoutput.cc class=LineVisitor filter=Visitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=LineVisitor,ValueVisitor nval=value targs=unsigned~short
//@spec
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@).push(lexical(value))

//@at return#1
    proof { assert(svw(m_output@) =~= svw(old(m_output)@).push(lexical(value))); }
//@end
//@fn disp_int name=display file=typelib/csvoutput.cc class=LineVisitor filter=Visitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=LineVisitor,ValueVisitor targs=int
//@spec
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@).push(sdec(value as int))

//@at return#1
    proof { assert(svw(m_output@) =~= svw(old(m_output)@).push(sdec(value as int))); }
//@end
//@fn disp_unsigned_int name=display file=typelib/csvoutput.cc class=LineVisitor filter=Visitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=LineVisitor,ValueVisitor nval=value targs=unsigned~int
//@spec
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@).push(lexical(value))

//@at return#1
    proof { assert(svw(m_output@) =~= svw(old(m_output)@).push(lexical(value))); }
//@end
//@fn disp_long name=display file=typelib/csvoutput.cc class=LineVisitor filter=Visitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=LineVisitor,ValueVisitor nval=value targs=long
//@spec
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@).push(lexical(value))

//@at return#1
    proof { assert(svw(m_output@) =~= svw(old(m_output)@).push(lexical(value))); }
//@end
//@fn disp_unsigned_long name=display file=typelib/csvoutput.cc class=LineVisitor filter=Visitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=LineVisitor,ValueVisitor nval=value targs=unsigned~long
//@spec
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@).push(lexical(value))

//@at return#1
    proof { assert(svw(m_output@) =~= svw(old(m_output)@).push(lexical(value))); }
//@end
//@fn disp_float name=display file=typelib/csvoutput.cc class=LineVisitor filter=Visitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=LineVisitor,ValueVisitor nval=value targs=float
//@spec
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@).push(lexical(value))

//@at return#1
    proof { assert(svw(m_output@) =~= svw(old(m_output)@).push(lexical(value))); }
//@end
//@fn disp_double name=display file=typelib/csvoutput.cc class=LineVisitor filter=Visitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=LineVisitor,ValueVisitor nval=value targs=double
//@spec
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@).push(lexical(value))

//@at return#1
    proof { assert(svw(m_output@) =~= svw(old(m_output)@).push(lexical(value))); }
//@end
//@fn disp_str name=display types=.*string file=typelib/csvoutput.cc class=LineVisitor filter=Visitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=LineVisitor,ValueVisitor 
//@spec
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@).push(value@)

//@at return#1
    proof { assert(svw(m_output@) =~= svw(old(m_output)@).push(value@)); }
//@end
//@fn lv_signed_char name=visit_ types=^int8_t~& file=typelib/csvoutput.cc class=LineVisitor filter=Visitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=LineVisitor,ValueVisitor nparams=1 params=v
//@spec
    requires v.size == 1, v.cat == SInt
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@).push(ntext(v, *old(m_char_as_numeric)))

//@end
//@fn lv_unsigned_char name=visit_ types=^uint8_t~& file=typelib/csvoutput.cc class=LineVisitor filter=Visitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=LineVisitor,ValueVisitor nparams=1 params=v
//@spec
    requires v.size == 1, v.cat == UInt
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@).push(ntext(v, *old(m_char_as_numeric)))

//@end
//@fn lv_short name=visit_ types=^int16_t~& file=typelib/csvoutput.cc class=LineVisitor filter=Visitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=LineVisitor,ValueVisitor nparams=1 params=v
//@spec
    requires v.size == 2, v.cat == SInt
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@).push(ntext(v, *old(m_char_as_numeric)))

//@end
//@fn lv_unsigned_short name=visit_ types=^uint16_t~& file=typelib/csvoutput.cc class=LineVisitor filter=Visitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=LineVisitor,ValueVisitor nparams=1 params=v
//@spec
    requires v.size == 2, v.cat == UInt
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@).push(ntext(v, *old(m_char_as_numeric)))

//@end
//@fn lv_int name=visit_ types=^int32_t~& file=typelib/csvoutput.cc class=LineVisitor filter=Visitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=LineVisitor,ValueVisitor nparams=1 params=v
//@spec
    requires v.size == 4, v.cat == SInt
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@).push(ntext(v, *old(m_char_as_numeric)))

//@end
//@fn lv_unsigned_int name=visit_ types=^uint32_t~& file=typelib/csvoutput.cc class=LineVisitor filter=Visitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=LineVisitor,ValueVisitor nparams=1 params=v
//@spec
    requires v.size == 4, v.cat == UInt
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@).push(ntext(v, *old(m_char_as_numeric)))

//@end
//@fn lv_long name=visit_ types=^int64_t~& file=typelib/csvoutput.cc class=LineVisitor filter=Visitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=LineVisitor,ValueVisitor nparams=1 params=v
//@spec
    requires v.size == 8, v.cat == SInt
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@).push(ntext(v, *old(m_char_as_numeric)))

//@end
//@fn lv_unsigned_long name=visit_ types=^uint64_t~& file=typelib/csvoutput.cc class=LineVisitor filter=Visitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=LineVisitor,ValueVisitor nparams=1 params=v
//@spec
    requires v.size == 8, v.cat == UInt
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@).push(ntext(v, *old(m_char_as_numeric)))

//@end
//@fn lv_float name=visit_ types=^float~& file=typelib/csvoutput.cc class=LineVisitor filter=Visitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=LineVisitor,ValueVisitor nparams=1 params=v
//@spec
    requires v.size == 4, v.cat == Float
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@).push(ntext(v, *old(m_char_as_numeric)))

//@end
//@fn lv_double name=visit_ types=^double~& file=typelib/csvoutput.cc class=LineVisitor filter=Visitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=LineVisitor,ValueVisitor nparams=1 params=v
//@spec
    requires v.size == 8, v.cat == Float
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@).push(ntext(v, *old(m_char_as_numeric)))

//@end
//@fn lv_enum name=visit_ types=const~Enum file=typelib/csvoutput.cc class=LineVisitor filter=Visitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=LineVisitor,ValueVisitor nparams=2 params=v,e
//@spec
    requires v.size == 4, v.cat == SInt, tcat(e) == Enum
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@).push(etext(e, nint(v)))

//@at return#1
    proof { assert(svw(m_output@) =~= svw(old(m_output)@).push(etext(e, nint(v)))); }
//@end
//@fn lv_opaque name=visit_ types=const~OpaqueType file=typelib/csvoutput.cc class=LineVisitor filter=Visitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=LineVisitor,ValueVisitor nparams=2 params=value,ty
//@spec
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@).push(seq![60u8] + tname(ty) + seq![62u8])

//@end
//@fn tv_nulltype name=visit_ types=^const~NullType file=typelib/typevisitor.cc class=TypeVisitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor params=ty assumed=never~reached:~the~precondition~is~false
//@spec
    requires false
//@end
//@fn td_container name=visit_ types=^const~Container file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor nparams=1 params=ty assumed=never~reached:~the~precondition~is~false
//@spec
    requires false
//@end
//@fn integer_cast_s name=integer_cast file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor nparams=2 params=value,t targs=signed~char,short,int,long
//@spec
    requires tcat(t) == Numeric, tnum(t) == SInt, okl(t, value)
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@).push(ntext(num(value, t), *old(m_char_as_numeric)))

//@end
//@fn integer_cast_u name=integer_cast file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor nparams=2 params=value,t targs=unsigned~char,unsigned~short,unsigned~int,unsigned~long
//@spec
    requires tcat(t) == Numeric, tnum(t) == UInt, okl(t, value)
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@).push(ntext(num(value, t), *old(m_char_as_numeric)))

//@end
//@fn td_numeric name=visit_ types=^const~Numeric file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor nparams=1 params=ty
//@spec
    requires old(m_stack)@.len() > 0, tcat(ty) == Numeric, okl(ty, old(m_stack)@.last())
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@) + rows(ty, old(m_stack)@.last(), *old(m_char_as_numeric))

//@at entry
    proof { lemma_push_one(svw(m_output@), ntext(num(m_stack@.last(), ty), *m_char_as_numeric)); }
//@end
//@fn td_enum name=visit_ types=^const~Enum file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor nparams=1 params=ty
//@spec
    requires old(m_stack)@.len() > 0, tcat(ty) == Enum, okl(ty, old(m_stack)@.last())
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@) + rows(ty, old(m_stack)@.last(), *old(m_char_as_numeric))

//@at entry
    proof { lemma_push_one(svw(m_output@), etext(ty, enumval(m_stack@.last()))); }
//@end
//@fn td_opaque name=visit_ types=^const~OpaqueType file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor nparams=1 params=ty
//@spec
    requires old(m_stack)@.len() > 0, tcat(ty) == Opaque, okl(ty, old(m_stack)@.last())
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@) + rows(ty, old(m_stack)@.last(), *old(m_char_as_numeric))

//@at entry
    proof { lemma_push_one(svw(m_output@), seq![60u8] + tname(ty) + seq![62u8]); }
//@end
//@fn td_pointer name=visit_ types=^const~Pointer file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor nparams=1 params=ty
//@spec
    requires old(m_stack)@.len() > 0, tcat(ty) == Pointer, okl(ty, old(m_stack)@.last())
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@) + rows(ty, old(m_stack)@.last(), *old(m_char_as_numeric))
    decreases trank(ty), 3int

//@at return#1
    proof { assert(m_stack@ =~= old(m_stack)@); assert(svw(m_output@) =~= svw(old(m_output)@) + rows(ty, old(m_stack)@.last(), *old(m_char_as_numeric))); }
//@end
//@fn td_array name=visit_ types=^const~Array file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor nparams=1 params=ty
//@spec
    requires old(m_stack)@.len() > 0, tcat(ty) == Array, okl(ty, old(m_stack)@.last())
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@) + rows(ty, old(m_stack)@.last(), *old(m_char_as_numeric))
    decreases trank(ty), 3int

//@end
//@fn td_compound name=visit_ types=^const~Compound file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor nparams=1 params=ty
//@spec
    requires old(m_stack)@.len() > 0, tcat(ty) == Compound, okl(ty, old(m_stack)@.last())
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@) + rows(ty, old(m_stack)@.last(), *old(m_char_as_numeric))
    decreases trank(ty), 3int

//@end
//@fn td_field name=visit_ types=const~Compound.*const~Field file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor nparams=2 params=ty,field
//@spec
    requires old(m_stack)@.len() > 0, old(m_stack)@.last() + field.m_offset <= usize::MAX, okl(field.m_type, at(old(m_stack)@.last(), field.m_offset as int))
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@) + rows(field.m_type, at(old(m_stack)@.last(), field.m_offset as int), *old(m_char_as_numeric))
    decreases trank(field.m_type), 7int

//@at return#1
    proof { assert(m_stack@ =~= old(m_stack)@); assert(svw(m_output@) =~= svw(old(m_output)@) + rows(field.m_type, at(old(m_stack)@.last(), field.m_offset as int), *old(m_char_as_numeric))); }
//@end
//@fn vv_pointer name=visit_ types=const~Value.*const~Pointer file=typelib/value.cc class=ValueVisitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=LineVisitor,ValueVisitor nparams=2 params=v,t
//@spec
    requires old(m_stack)@.len() > 0, tcat(t) == Pointer, okl(tind(t), old(m_stack)@.last())
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@) + rows(tind(t), old(m_stack)@.last(), *old(m_char_as_numeric))
    decreases trank(tind(t)), 6int

//@end
//@fn vv_array name=visit_ types=const~Value.*const~Array file=typelib/value.cc class=ValueVisitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=LineVisitor,ValueVisitor nparams=2 params=v,a
//@spec
    requires tcat(a) == Array, okl(a, v.p)
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@) + rows(a, v.p, *old(m_char_as_numeric))
    decreases trank(a), 2int

//@loop 1
    invariant tcat(a) == Array, okl(a, v.p), i <= tdim(a), base == v.p, array_type == tind(a), m_stack@.len() == old(m_stack)@.len() + 1, m_stack@.drop_last() == old(m_stack)@,
        *m_char_as_numeric == *old(m_char_as_numeric), svw(m_output@) == svw(old(m_output)@) + arows(tind(a), v.p, *old(m_char_as_numeric), i as int)
    decreases tdim(a) - i
//@at loop1.before
    proof { assert(m_stack@.drop_last() =~= old(m_stack)@); assert(svw(m_output@) =~= svw(old(m_output)@) + arows(tind(a), v.p, *old(m_char_as_numeric), 0)); }
//@at loop1.begin
    proof { lemma_okla(tind(a), v.p, i as int, tdim(a) as int); lemma_step(i as int, tdim(a) as int, tsize(tind(a)) as int); }
//@at call:tv_pointer#1.before
    proof { assert(m_stack@.last() == at(v.p, i * tsize(tind(a)))); assert(m_stack@.drop_last() =~= old(m_stack)@); }
//@at loop1.end
    proof { assert(svw(m_output@) =~= svw(old(m_output)@) + arows(tind(a), v.p, *old(m_char_as_numeric), i as int)); }
//@end
//@fn vv_compound name=visit_ types=const~Value.*const~Compound file=typelib/value.cc class=ValueVisitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=LineVisitor,ValueVisitor nparams=2 params=_v,c
//@spec
    requires old(m_stack)@.len() > 0, tcat(c) == Compound, okl(c, old(m_stack)@.last())
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@) + rows(c, old(m_stack)@.last(), *old(m_char_as_numeric))
    decreases trank(c), 2int

//@end
//@fn vv_field name=visit_ types=const~Value.*const~Compound.*const~Field file=typelib/value.cc class=ValueVisitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=LineVisitor,ValueVisitor nparams=3 params=_v,c,f
//@spec
    requires old(m_stack)@.len() > 0, okl(f.m_type, old(m_stack)@.last())
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@) + rows(f.m_type, old(m_stack)@.last(), *old(m_char_as_numeric))
    decreases trank(f.m_type), 6int

//@end
//@fn tv_pointer name=visit_ types=^const~Pointer file=typelib/typevisitor.cc class=TypeVisitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor params=ty
//@spec
    requires old(m_stack)@.len() > 0, tcat(ty) == Pointer, okl(tind(ty), old(m_stack)@.last())
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@) + rows(tind(ty), old(m_stack)@.last(), *old(m_char_as_numeric))
    decreases trank(tind(ty)), 5int

//@end
//@fn tv_field name=visit_ types=const~Compound.*const~Field file=typelib/typevisitor.cc class=TypeVisitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor nparams=2 params=ty,field
//@spec
    requires old(m_stack)@.len() > 0, okl(field.m_type, old(m_stack)@.last())
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@) + rows(field.m_type, old(m_stack)@.last(), *old(m_char_as_numeric))
    decreases trank(field.m_type), 5int

//@end
//@fn tv_compound name=visit_ types=^const~Compound file=typelib/typevisitor.cc class=TypeVisitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor nparams=1 params=ty
//@spec
    requires old(m_stack)@.len() > 0, tcat(ty) == Compound, okl(ty, old(m_stack)@.last())
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@) + rows(ty, old(m_stack)@.last(), *old(m_char_as_numeric))
    decreases trank(ty), 1int

//@loop 1
    invariant *it.v == tfieldlist(ty), end.v == it.v, end.i == it.v@.len(), it.i <= it.v@.len(), m_stack@ == old(m_stack)@, m_stack@.len() > 0, okl(ty, m_stack@.last()), tcat(ty) == Compound,
        *m_char_as_numeric == *old(m_char_as_numeric), svw(m_output@) == svw(old(m_output)@) + frows(ty, m_stack@.last(), *m_char_as_numeric, it.i as int)
    decreases it.v@.len() - it.i
//@at loop1.begin
    proof { lemma_oklf(ty, m_stack@.last(), it.i as int, tfields(ty).len() as int); }
//@at loop1.end
    proof { assert(svw(m_output@) =~= svw(old(m_output)@) + frows(ty, m_stack@.last(), *m_char_as_numeric, it.i as int)); }
//@at end
    proof { assert(it.i == tfields(ty).len()); }
//@end
//@fn tv_dispatch name=dispatch file=typelib/typevisitor.cc class=TypeVisitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor params=ty
//@spec
    requires old(m_stack)@.len() > 0, okl(ty, old(m_stack)@.last())
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@) + rows(ty, old(m_stack)@.last(), *old(m_char_as_numeric))
    decreases trank(ty), 4int

//@end
//@fn tv_apply name=apply file=typelib/typevisitor.cc class=TypeVisitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor params=ty
//@spec
    requires old(m_stack)@.len() > 0, okl(ty, old(m_stack)@.last())
    ensures r is Ok, final(m_stack)@ == old(m_stack)@, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@) + rows(ty, old(m_stack)@.last(), *old(m_char_as_numeric))

//@end
//@fn td_apply name=apply file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor
//@spec
    requires okl(value.t, value.p)
    ensures r is Ok, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@) + rows(value.t, value.p, *old(m_char_as_numeric))

//@end
//@fn vv_apply name=apply file=typelib/value.cc class=ValueVisitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=LineVisitor,ValueVisitor
//@spec
    requires okl(v.t, v.p)
    ensures r is Ok, *final(m_char_as_numeric) == *old(m_char_as_numeric), svw(final(m_output)@) == svw(old(m_output)@) + rows(v.t, v.p, *old(m_char_as_numeric))

//@end
//@fn lv_apply name=apply file=typelib/csvoutput.cc class=LineVisitor filter=Visitor flat=m_stack:&mut~Vec<usize>,m_output:&mut~Vec<Vec<u8>>,m_char_as_numeric:&mut~bool link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:LineVisitor|ValueVisitor vals=addr throws=yes dyn=LineVisitor,ValueVisitor
//@spec
    requires okl(value.t, value.p)
    ensures r is Ok, svw(r->Ok_0@) == rows(value.t, value.p, char_as_numeric)
//@at call:vv_apply#1.before
    proof { assert(svw(m_output@) =~= Seq::empty()); }
//@at return#1
    proof { assert(svw(m_output@) =~= rows(value.t, value.p, char_as_numeric)); }
//@end
pub struct CSVOutput { pub m_type: TyRef, pub m_separator: Vec<u8>, pub m_char_as_numeric: bool }
//@fn display file=typelib/csvoutput.cc class=CSVOutput impl=impl~CSVOutput vals=addr throws=yes link=-:-
//@spec
    requires okl(old(self).m_type, value)
    ensures r is Ok, final(out).v@ == old(out).v@ + joined(rows(old(self).m_type, value, old(self).m_char_as_numeric), old(self).m_separator@)
//@end
