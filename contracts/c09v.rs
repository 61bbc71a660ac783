//@include c09x.rs
// The conversion in place: EndianSwapVisitor over the ValueVisitor traversal. The whole memory is one sequence of bytes, a value is an address in it.
pub struct VRef { pub p: usize, pub t: TyRef }
impl Copy for VRef {}
impl Clone for VRef { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
pub struct NRef { pub p: usize, pub size: usize, pub cat: u32 }
impl Copy for NRef {}
impl Clone for NRef { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl NRef { pub fn at(p: usize, size: usize, cat: u32) -> (r: NRef) ensures r == (NRef { p, size, cat }) { NRef { p, size, cat } } }
pub const SInt: u32 = 8;
pub const UInt: u32 = 9;
pub const Float: u32 = 10;
pub uninterp spec fn tnum(t: TyRef) -> u32;
impl TyRef {
    #[verifier::external_body]
    pub fn getNumericCategory(self) -> (r: u32) requires tcat(self) == Numeric ensures r == tnum(self), r <= 11 { unimplemented!() }
}
// whatever address the memory holds there
#[verifier::external_body]
pub fn ptr_at(p: usize) -> (r: usize) { unimplemented!() }
#[verifier::external_body]
pub fn temp_pointer(t: TyRef) -> (r: TyRef) ensures tcat(r) == Pointer, tind(r) == t { unimplemented!() }
pub open spec fn b2(x: u16, i: int) -> u8 { if i == 0 { (x & 0xff) as u8 } else { ((x >> 8) & 0xff) as u8 } }
#[verifier::external_body]
pub fn nrd8(b: &Vec<u8>, i: usize) -> (r: u8) requires i + 1 <= b@.len() ensures r == b@[i as int] { unimplemented!() }
#[verifier::external_body]
pub fn nrd16(b: &Vec<u8>, i: usize) -> (r: u16) requires i + 2 <= b@.len() ensures forall|k: int| 0 <= k < 2 ==> #[trigger] b2(r, k) == b@[i + k] { unimplemented!() }
#[verifier::external_body]
pub fn nrd32(b: &Vec<u8>, i: usize) -> (r: u32) requires i + 4 <= b@.len() ensures forall|k: int| 0 <= k < 4 ==> #[trigger] b4(r, k) == b@[i + k] { unimplemented!() }
#[verifier::external_body]
pub fn nrd64(b: &Vec<u8>, i: usize) -> (r: usize) requires i + 8 <= b@.len() ensures forall|k: int| 0 <= k < 8 ==> #[trigger] b8(r, k) == b@[i + k] { unimplemented!() }
#[verifier::external_body]
pub fn nwr8(b: &mut Vec<u8>, i: usize, v: u8) requires i + 1 <= old(b)@.len()
    ensures final(b)@.len() == old(b)@.len(), forall|k: int| 0 <= k < old(b)@.len() ==> #[trigger] final(b)@[k] == if k == i { v } else { old(b)@[k] } { unimplemented!() }
#[verifier::external_body]
pub fn nwr16(b: &mut Vec<u8>, i: usize, v: u16) requires i + 2 <= old(b)@.len()
    ensures final(b)@.len() == old(b)@.len(), forall|k: int| 0 <= k < old(b)@.len() ==> #[trigger] final(b)@[k] == if i <= k < i + 2 { b2(v, k - i) } else { old(b)@[k] } { unimplemented!() }
#[verifier::external_body]
pub fn nwr32(b: &mut Vec<u8>, i: usize, v: u32) requires i + 4 <= old(b)@.len()
    ensures final(b)@.len() == old(b)@.len(), forall|k: int| 0 <= k < old(b)@.len() ==> #[trigger] final(b)@[k] == if i <= k < i + 4 { b4(v, k - i) } else { old(b)@[k] } { unimplemented!() }
#[verifier::external_body]
pub fn nwr64(b: &mut Vec<u8>, i: usize, v: usize) requires i + 8 <= old(b)@.len()
    ensures final(b)@.len() == old(b)@.len(), forall|k: int| 0 <= k < old(b)@.len() ==> #[trigger] final(b)@[k] == if i <= k < i + 8 { b8(v, k - i) } else { old(b)@[k] } { unimplemented!() }
// ---------------------------------------------------------------- what is converted in place
pub open spec fn oknum(t: TyRef) -> bool { if tnum(t) == Float { tsize(t) == 4 || tsize(t) == 8 } else { (tnum(t) == SInt || tnum(t) == UInt) && (tsize(t) == 1 || tsize(t) == 2 || tsize(t) == 4 || tsize(t) == 8) } }
pub open spec fn oki(t: TyRef) -> bool decreases trank(t), tfields(t).len() + 1
{
    if tcat(t) == Numeric { oknum(t) }
    else if tcat(t) == Enum || tcat(t) == Opaque { true }
    else if tcat(t) == Array { tdim(t) == 0 || (trank(tind(t)) < trank(t) && oki(tind(t))) }
    else if tcat(t) == Compound { okif(t, tfields(t).len() as int) }
    else { false }
}
pub open spec fn okif(t: TyRef, n: int) -> bool decreases trank(t), n
{ if n <= 0 || n > tfields(t).len() { n == 0 } else { okif(t, n - 1) && trank(tfields(t)[n - 1].m_type) < trank(t) && oki(tfields(t)[n - 1].m_type) } }
pub proof fn lemma_okif(t: TyRef, i: int, n: int)
    requires 0 <= i <= n <= tfields(t).len()
    ensures okif(t, n) ==> okif(t, i)
    decreases n
{ if i < n { lemma_okif(t, i, n - 1); } }
// no container in the value
pub open spec fn nocont(t: TyRef) -> bool decreases trank(t), tfields(t).len() + 1
{
    if tcat(t) == Array { trank(tind(t)) < trank(t) && nocont(tind(t)) }
    else if tcat(t) == Compound { nocf(t, tfields(t).len() as int) }
    else { tcat(t) != Container && tcat(t) <= 7 }
}
pub open spec fn nocf(t: TyRef, n: int) -> bool decreases trank(t), n
{ if n <= 0 || n > tfields(t).len() { n == 0 } else { nocf(t, n - 1) && trank(tfields(t)[n - 1].m_type) < trank(t) && nocont(tfields(t)[n - 1].m_type) } }
pub proof fn lemma_nocf(t: TyRef, i: int, n: int)
    requires nocf(t, n), 0 <= i < n <= tfields(t).len()
    ensures nocont(tfields(t)[i].m_type), trank(tfields(t)[i].m_type) < trank(t)
    decreases n
{ if i + 1 < n { lemma_nocf(t, i, n - 1); } }
pub open spec fn vmap(t: TyRef, o: int) -> Seq<int> decreases trank(t), 0nat, tfields(t).len() + 1
{
    if tcat(t) == Numeric || tcat(t) == Enum { rev(o, tsize(t) as nat) }
    else if tcat(t) == Opaque { ident(o, tsize(t) as nat) }
    else if tcat(t) == Array { if trank(tind(t)) < trank(t) { vam(tind(t), o, tdim(t) as int) } else { seq![] } }
    else if tcat(t) == Compound { let n = tfields(t).len() as int; vfm(t, o, n) + ident(o + lend(t, n), (tsize(t) - lend(t, n)) as nat) }
    else { seq![] }
}
pub open spec fn vam(e: TyRef, o: int, n: int) -> Seq<int> decreases trank(e), 1nat, n
{ if n <= 0 { seq![] } else { vam(e, o, n - 1) + vmap(e, o + (n - 1) * tsize(e)) } }
pub open spec fn vfm(t: TyRef, o: int, n: int) -> Seq<int> decreases trank(t), 0nat, n
{
    if n <= 0 || n > tfields(t).len() || trank(tfields(t)[n - 1].m_type) >= trank(t) { seq![] }
    else { let f = tfields(t)[n - 1]; vfm(t, o, n - 1) + ident(o + lend(t, n - 1), (f.m_offset - lend(t, n - 1)) as nat) + vmap(f.m_type, o + f.m_offset) }
}
pub proof fn lemma_vm(t: TyRef, o: int)
    requires wft(t), oki(t)
    ensures vmap(t, o).len() == tsize(t), inv(vmap(t, o), o)
    decreases trank(t), 0nat, tfields(t).len() + 1
{
    if tcat(t) == Numeric || tcat(t) == Enum || tcat(t) == Opaque { lemma_inv_basic(o, tsize(t) as nat); }
    else if tcat(t) == Array { if tdim(t) == 0 { assert(0 * tsize(tind(t)) == 0) by (nonlinear_arith); } else { lemma_va(tind(t), o, tdim(t) as int); } }
    else {
        let n = tfields(t).len() as int; let g = (tsize(t) - lend(t, n)) as nat;
        lemma_vf(t, o, n); lemma_inv_basic(o + lend(t, n), g); lemma_inv_cat(vfm(t, o, n), ident(o + lend(t, n), g), o);
    }
}
pub proof fn lemma_va(e: TyRef, o: int, n: int)
    requires wft(e), oki(e), n >= 0
    ensures vam(e, o, n).len() == n * tsize(e), inv(vam(e, o, n), o)
    decreases trank(e), 1nat, n
{
    if n > 0 {
        lemma_va(e, o, n - 1); lemma_vm(e, o + (n - 1) * tsize(e)); assert((n - 1) * tsize(e) + tsize(e) == n * tsize(e)) by (nonlinear_arith);
        lemma_inv_cat(vam(e, o, n - 1), vmap(e, o + (n - 1) * tsize(e)), o);
    } else { assert(0 * tsize(e) == 0) by (nonlinear_arith); }
}
pub proof fn lemma_vf(t: TyRef, o: int, n: int)
    requires wff(t, n), okif(t, n), n >= 0
    ensures vfm(t, o, n).len() == lend(t, n), lend(t, n) >= 0, inv(vfm(t, o, n), o)
    decreases trank(t), 0nat, n
{
    if n > 0 {
        let f = tfields(t)[n - 1]; let l = lend(t, n - 1); let g = ident(o + l, (f.m_offset - l) as nat);
        lemma_vf(t, o, n - 1); lemma_vm(f.m_type, o + f.m_offset); lemma_inv_basic(o + l, (f.m_offset - l) as nat);
        lemma_inv_cat(vfm(t, o, n - 1), g, o); lemma_inv_cat(vfm(t, o, n - 1) + g, vmap(f.m_type, o + f.m_offset), o);
    }
}
// where both conversions apply they are the same
pub proof fn theorem_agree(t: TyRef, o: int)
    requires wft(t), okc(t), oki(t)
    ensures vmap(t, o) == smap(t, o)
    decreases trank(t), 0nat, tfields(t).len() + 1
{
    if tcat(t) == Array { if tdim(t) > 0 { lemma_agree_a(tind(t), o, tdim(t) as int); } }
    else if tcat(t) == Compound { lemma_agree_f(t, o, tfields(t).len() as int); }
}
pub proof fn lemma_agree_a(e: TyRef, o: int, n: int)
    requires wft(e), okc(e), oki(e), n >= 0
    ensures vam(e, o, n) == amap(e, o, n)
    decreases trank(e), 1nat, n
{ if n > 0 { lemma_agree_a(e, o, n - 1); theorem_agree(e, o + (n - 1) * tsize(e)); } }
pub proof fn lemma_agree_f(t: TyRef, o: int, n: int)
    requires wff(t, n), okf(t, n), okif(t, n), n >= 0
    ensures vfm(t, o, n) == fmap(t, o, n)
    decreases trank(t), 0nat, n
{ if n > 0 { lemma_agree_f(t, o, n - 1); theorem_agree(tfields(t)[n - 1].m_type, o + tfields(t)[n - 1].m_offset); } }
// ---------------------------------------------------------------- contracts of the traversal
pub open spec fn off(p: usize, o: int) -> usize { (p + o) as usize }
pub open spec fn vpre(t: TyRef, p: usize, m: Seq<u8>) -> bool { wft(t) && nocont(t) && small() && p + tsize(t) <= m.len() && m.len() <= usize::MAX }
pub open spec fn apart(a: Seq<u8>, b: Seq<u8>, o: int, n: int) -> bool { a.len() == b.len() && forall|k: int| #![trigger b[k]] 0 <= k < a.len() && !(o <= k < o + n) ==> b[k] == a[k] }
pub open spec fn vpost(a: Seq<u8>, b: Seq<u8>, t: TyRef, p: usize, r: Result<bool, Ex>) -> bool {
    apart(a, b, p as int, tsize(t) as int) && (r is Ok <==> oki(t)) && (r is Ok ==> r->Ok_0 && moved(a, b, a, p as int, vmap(t, p as int)))
}
pub open spec fn npost(a: Seq<u8>, b: Seq<u8>, v: NRef) -> bool { moved(a, b, a, v.p as int, rev(v.p as int, v.size as nat)) }
pub proof fn lemma_glue(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, o: int, m: Seq<int>, q: int, h: Seq<int>)
    requires moved(a, b, a, o, m), moved(b, c, b, q, h), q >= o + m.len(), inv(h, q), q + h.len() <= a.len(), o >= 0
    ensures moved(a, c, a, o, m + ident(o + m.len(), (q - o - m.len()) as nat) + h)
{
    let g = ident(o + m.len(), (q - o - m.len()) as nat); let x = m + g + h;
    assert forall|k: int| #![trigger c[k]] 0 <= k < a.len() implies c[k] == if o <= k < o + x.len() { a[x[k - o]] } else { a[k] } by {
        if q <= k < q + h.len() { let s = h[k - q]; assert(x[k - o] == s); assert(b[s] == a[s]); }
        else { assert(c[k] == b[k]); if o + m.len() <= k < q { assert(x[k - o] == g[k - o - m.len()]); } else if o <= k < q { assert(x[k - o] == m[k - o]); } }
    }
}
pub proof fn lemma_tail(a: Seq<u8>, b: Seq<u8>, o: int, m: Seq<int>, n: nat)
    requires moved(a, b, a, o, m), o >= 0
    ensures moved(a, b, a, o, m + ident(o + m.len(), n))
{
    let g = ident(o + m.len(), n); let x = m + g;
    assert forall|k: int| #![trigger b[k]] 0 <= k < a.len() implies b[k] == if o <= k < o + x.len() { a[x[k - o]] } else { a[k] } by {
        if o + m.len() <= k < o + x.len() { assert(x[k - o] == g[k - o - m.len()]); } else if o <= k < o + m.len() { assert(x[k - o] == m[k - o]); }
    }
}
pub proof fn lemma_none(a: Seq<u8>, o: int) ensures moved(a, a, a, o, Seq::<int>::empty()) {}
pub proof fn lemma_same(a: Seq<u8>, o: int, n: nat) requires 0 <= o, o + n <= a.len() ensures moved(a, a, a, o, ident(o, n)) {}
pub proof fn lemma_stp(i: int, n: int, s: int) requires 0 <= i < n, 0 <= s ensures 0 <= i * s, s * i == i * s, i * s + s == (i + 1) * s, i * s + s <= n * s { assert(0 <= i * s && s * i == i * s && i * s + s == (i + 1) * s && i * s + s <= n * s) by(nonlinear_arith) requires 0 <= i < n, 0 <= s; }
//@fn sw_signed_char name=swap nparams=1 targs=signed~char file=typelib/endianness.cc filter=Endian bits=yes
//@spec
    ensures r == data
//@end
//@fn sw_unsigned_char name=swap nparams=1 targs=unsigned~char file=typelib/endianness.cc filter=Endian bits=yes
//@spec
    ensures r == data
//@end
//@fn sw_short name=swap nparams=1 targs=short file=typelib/endianness.cc filter=Endian bits=yes
//@spec
    ensures r == bswap2(data), b2(r, 0) == b2(data, 1), b2(r, 1) == b2(data, 0)
//@at entry
    proof { theorem_bswap2(data); }
//@end
//@fn sw_unsigned_short name=swap nparams=1 targs=unsigned~short file=typelib/endianness.cc filter=Endian bits=yes
//@spec
    ensures r == bswap2(data), b2(r, 0) == b2(data, 1), b2(r, 1) == b2(data, 0)
//@at entry
    proof { theorem_bswap2(data); }
//@end
//@fn sw_int name=swap nparams=1 targs=int file=typelib/endianness.cc filter=Endian bits=yes
//@spec
    ensures r == bswap4(data), forall|k: int| 0 <= k < 4 ==> #[trigger] b4(r, k) == b4(data, 3 - k)
//@at entry
    proof { theorem_bswap4(data); }
//@end
//@fn sw_long name=swap nparams=1 targs=long file=typelib/endianness.cc filter=Endian bits=yes
//@spec
    ensures r == bswap8(data), forall|k: int| 0 <= k < 8 ==> #[trigger] b8(r, k) == b8(data, 7 - k)
//@at entry
    proof { theorem_bswap8(data); }
//@end
//@fn sw_float name=swap nparams=1 targs=float file=typelib/endianness.cc filter=Endian bits=yes
//@spec
    ensures r == bswap4(data), forall|k: int| 0 <= k < 4 ==> #[trigger] b4(r, k) == b4(data, 3 - k)
//@at entry
    proof { theorem_bswap4(data); }
//@end
//@fn sw_double name=swap nparams=1 targs=double file=typelib/endianness.cc filter=Endian bits=yes
//@spec
    ensures r == bswap8(data), forall|k: int| 0 <= k < 8 ==> #[trigger] b8(r, k) == b8(data, 7 - k)
//@at entry
    proof { theorem_bswap8(data); }
//@end
//@fn ev_signed_char name=visit_ types=^int8_t~& file=typelib/endianness.cc filter=Endian class=EndianSwapVisitor flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=EndianSwapVisitor,ValueVisitor nparams=1 params=v nmem=mem bits=yes
//@spec
    requires v.size == 1, v.cat == SInt, v.p + 1 <= old(mem)@.len()
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, npost(old(mem)@, final(mem)@, v)
//@end
//@fn ev_unsigned_char name=visit_ types=^uint8_t~& file=typelib/endianness.cc filter=Endian class=EndianSwapVisitor flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=EndianSwapVisitor,ValueVisitor nparams=1 params=v nmem=mem bits=yes
//@spec
    requires v.size == 1, v.cat == UInt, v.p + 1 <= old(mem)@.len()
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, npost(old(mem)@, final(mem)@, v)
//@end
//@fn ev_short name=visit_ types=^int16_t~& file=typelib/endianness.cc filter=Endian class=EndianSwapVisitor flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=EndianSwapVisitor,ValueVisitor nparams=1 params=v nmem=mem bits=yes
//@spec
    requires v.size == 2, v.cat == SInt, v.p + 2 <= old(mem)@.len()
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, npost(old(mem)@, final(mem)@, v)
//@end
//@fn ev_unsigned_short name=visit_ types=^uint16_t~& file=typelib/endianness.cc filter=Endian class=EndianSwapVisitor flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=EndianSwapVisitor,ValueVisitor nparams=1 params=v nmem=mem bits=yes
//@spec
    requires v.size == 2, v.cat == UInt, v.p + 2 <= old(mem)@.len()
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, npost(old(mem)@, final(mem)@, v)
//@end
//@fn ev_int name=visit_ types=^int32_t~& file=typelib/endianness.cc filter=Endian class=EndianSwapVisitor flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=EndianSwapVisitor,ValueVisitor nparams=1 params=v nmem=mem bits=yes
//@spec
    requires v.size == 4, v.cat == SInt, v.p + 4 <= old(mem)@.len()
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, npost(old(mem)@, final(mem)@, v)
//@end
//@fn ev_unsigned_int name=visit_ types=^uint32_t~& file=typelib/endianness.cc filter=Endian class=EndianSwapVisitor flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=EndianSwapVisitor,ValueVisitor nparams=1 params=v nmem=mem bits=yes
//@spec
    requires v.size == 4, v.cat == UInt, v.p + 4 <= old(mem)@.len()
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, npost(old(mem)@, final(mem)@, v)
//@end
//@fn ev_long name=visit_ types=^int64_t~& file=typelib/endianness.cc filter=Endian class=EndianSwapVisitor flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=EndianSwapVisitor,ValueVisitor nparams=1 params=v nmem=mem bits=yes
//@spec
    requires v.size == 8, v.cat == SInt, v.p + 8 <= old(mem)@.len()
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, npost(old(mem)@, final(mem)@, v)
//@end
//@fn ev_unsigned_long name=visit_ types=^uint64_t~& file=typelib/endianness.cc filter=Endian class=EndianSwapVisitor flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=EndianSwapVisitor,ValueVisitor nparams=1 params=v nmem=mem bits=yes
//@spec
    requires v.size == 8, v.cat == UInt, v.p + 8 <= old(mem)@.len()
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, npost(old(mem)@, final(mem)@, v)
//@end
//@fn ev_float name=visit_ types=^float~& file=typelib/endianness.cc filter=Endian class=EndianSwapVisitor flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=EndianSwapVisitor,ValueVisitor nparams=1 params=v nmem=mem bits=yes
//@spec
    requires v.size == 4, v.cat == Float, v.p + 4 <= old(mem)@.len()
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, npost(old(mem)@, final(mem)@, v)
//@end
//@fn ev_double name=visit_ types=^double~& file=typelib/endianness.cc filter=Endian class=EndianSwapVisitor flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=EndianSwapVisitor,ValueVisitor nparams=1 params=v nmem=mem bits=yes
//@spec
    requires v.size == 8, v.cat == Float, v.p + 8 <= old(mem)@.len()
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, npost(old(mem)@, final(mem)@, v)
//@end
//@fn ev_enum name=visit_ types=const~Enum file=typelib/endianness.cc filter=Endian class=EndianSwapVisitor flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=EndianSwapVisitor,ValueVisitor nparams=2 params=v,e nmem=mem bits=yes
//@spec
    requires v.size == 4, v.cat == SInt, v.p + 4 <= old(mem)@.len()
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, npost(old(mem)@, final(mem)@, v)
//@end
//@fn ev_pointer name=visit_ types=const~Value.*const~Pointer file=typelib/endianness.cc filter=Endian class=EndianSwapVisitor flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=EndianSwapVisitor,ValueVisitor nparams=2 params=v,t
//@spec
    ensures r is Err, final(mem)@ == old(mem)@
    decreases 0int
//@end
//@fn vv_opaque name=visit_ types=const~Value.*const~OpaqueType file=typelib/value.cc class=ValueVisitor flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=EndianSwapVisitor,ValueVisitor nparams=2 params=v,t
//@spec
    ensures r is Ok, r->Ok_0, final(m_stack)@ == old(m_stack)@, final(mem)@ == old(mem)@
//@end
//@fn tv_nulltype name=visit_ types=^const~NullType file=typelib/typevisitor.cc class=TypeVisitor flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor params=ty
//@spec
    ensures r is Err, final(mem)@ == old(mem)@
//@end
//@fn td_container name=visit_ types=^const~Container file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor nparams=1 params=ty assumed=never~reached:~the~precondition~is~false
//@spec
    requires false
//@end
//@fn integer_cast_s name=integer_cast file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor nparams=2 params=value,t targs=signed~char,short,int,long
//@spec
    requires tcat(t) == Numeric, tnum(t) == SInt, vpre(t, value, old(mem)@)
    ensures vpost(old(mem)@, final(mem)@, t, value, r), r is Ok ==> final(m_stack)@ == old(m_stack)@
//@end
//@fn integer_cast_u name=integer_cast file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor nparams=2 params=value,t targs=unsigned~char,unsigned~short,unsigned~int,unsigned~long
//@spec
    requires tcat(t) == Numeric, tnum(t) == UInt, vpre(t, value, old(mem)@)
    ensures vpost(old(mem)@, final(mem)@, t, value, r), r is Ok ==> final(m_stack)@ == old(m_stack)@
//@end
//@fn td_numeric name=visit_ types=^const~Numeric file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor nparams=1 params=ty
//@spec
    requires old(m_stack)@.len() > 0, tcat(ty) == Numeric, vpre(ty, old(m_stack)@.last(), old(mem)@)
    ensures vpost(old(mem)@, final(mem)@, ty, old(m_stack)@.last(), r), r is Ok ==> final(m_stack)@ == old(m_stack)@
//@end
//@fn td_enum name=visit_ types=^const~Enum file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor nparams=1 params=ty
//@spec
    requires old(m_stack)@.len() > 0, tcat(ty) == Enum, vpre(ty, old(m_stack)@.last(), old(mem)@)
    ensures vpost(old(mem)@, final(mem)@, ty, old(m_stack)@.last(), r), r is Ok ==> final(m_stack)@ == old(m_stack)@
//@end
//@fn td_opaque name=visit_ types=^const~OpaqueType file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor nparams=1 params=ty
//@spec
    requires old(m_stack)@.len() > 0, tcat(ty) == Opaque, vpre(ty, old(m_stack)@.last(), old(mem)@)
    ensures vpost(old(mem)@, final(mem)@, ty, old(m_stack)@.last(), r), r is Ok ==> final(m_stack)@ == old(m_stack)@
//@at return#1
    proof { lemma_same(mem@, m_stack@.last() as int, tsize(ty) as nat); }
//@end
//@fn td_pointer name=visit_ types=^const~Pointer file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor nparams=1 params=ty
//@spec
    requires old(m_stack)@.len() > 0, tcat(ty) == Pointer, vpre(ty, old(m_stack)@.last(), old(mem)@)
    ensures vpost(old(mem)@, final(mem)@, ty, old(m_stack)@.last(), r), r is Ok ==> final(m_stack)@ == old(m_stack)@
    decreases trank(ty), 3int
//@end
//@fn td_array name=visit_ types=^const~Array file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor nparams=1 params=ty
//@spec
    requires old(m_stack)@.len() > 0, tcat(ty) == Array, vpre(ty, old(m_stack)@.last(), old(mem)@)
    ensures vpost(old(mem)@, final(mem)@, ty, old(m_stack)@.last(), r), r is Ok ==> final(m_stack)@ == old(m_stack)@
    decreases trank(ty), 3int
//@end
//@fn td_compound name=visit_ types=^const~Compound file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor nparams=1 params=ty
//@spec
    requires old(m_stack)@.len() > 0, tcat(ty) == Compound, vpre(ty, old(m_stack)@.last(), old(mem)@)
    ensures vpost(old(mem)@, final(mem)@, ty, old(m_stack)@.last(), r), r is Ok ==> final(m_stack)@ == old(m_stack)@
    decreases trank(ty), 3int
//@end
//@fn td_field name=visit_ types=const~Compound.*const~Field file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor nparams=2 params=ty,field
//@spec
    requires old(m_stack)@.len() > 0, old(m_stack)@.last() + field.m_offset <= usize::MAX, vpre(field.m_type, off(old(m_stack)@.last(), field.m_offset as int), old(mem)@)
    ensures vpost(old(mem)@, final(mem)@, field.m_type, off(old(m_stack)@.last(), field.m_offset as int), r), r is Ok ==> final(m_stack)@ == old(m_stack)@
    decreases trank(field.m_type), 7int
//@at return#1
    proof { assert(m_stack@ =~= old(m_stack)@); }
//@end
//@fn vv_array name=visit_ types=const~Value.*const~Array file=typelib/value.cc class=ValueVisitor flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=EndianSwapVisitor,ValueVisitor nparams=2 params=v,a
//@spec
    requires tcat(a) == Array, vpre(a, v.p, old(mem)@)
    ensures vpost(old(mem)@, final(mem)@, a, v.p, r), r is Ok ==> final(m_stack)@ == old(m_stack)@
    decreases trank(a), 2int
//@at entry
    let ghost m0 = mem@; let ghost e = tind(a); let ghost sz = tsize(e) as int; let ghost n = tdim(a) as int; let ghost p0 = v.p as int;
//@loop 1
    invariant tcat(a) == Array, vpre(a, v.p, m0), m0 == old(mem)@, e == tind(a), sz == tsize(e), n == tdim(a), p0 == v.p, i <= tdim(a), base == v.p, array_type == e, m_stack@.len() == old(m_stack)@.len() + 1, m_stack@.drop_last() == old(m_stack)@,
        i > 0 ==> oki(e), moved(m0, mem@, m0, p0, vam(e, p0, i as int)), vam(e, p0, i as int).len() == i * sz
    decreases tdim(a) - i
//@at loop1.before
    proof { assert(m_stack@.drop_last() =~= old(m_stack)@); lemma_none(m0, p0); assert(0 * sz == 0) by (nonlinear_arith); }
//@at loop1.begin
    proof { lemma_stp(i as int, n, sz); }
//@at call:tv_pointer#1.before
    let ghost b0 = mem@; let ghost q = off(v.p, i * sz);
    proof { assert(m_stack@.last() == q); assert(m_stack@.drop_last() =~= old(m_stack)@); assert(q == p0 + i * sz); }
//@at call:tv_pointer#1.err
    proof { assert(apart(m0, mem@, p0, n * sz)); assert(n > 0); }
//@at call:tv_pointer#1.after
    proof {
        lemma_vm(e, q as int); lemma_glue(m0, b0, mem@, p0, vam(e, p0, i as int), q as int, vmap(e, q as int));
        assert(vam(e, p0, i as int) + ident(p0 + i * sz, 0) + vmap(e, q as int) =~= vam(e, p0, i + 1));
    }
//@at loop1.after
    proof { assert(i == n); }
//@end
//@fn vv_compound name=visit_ types=const~Value.*const~Compound file=typelib/value.cc class=ValueVisitor flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=EndianSwapVisitor,ValueVisitor nparams=2 params=_v,c
//@spec
    requires old(m_stack)@.len() > 0, tcat(c) == Compound, vpre(c, old(m_stack)@.last(), old(mem)@)
    ensures vpost(old(mem)@, final(mem)@, c, old(m_stack)@.last(), r), r is Ok ==> final(m_stack)@ == old(m_stack)@
    decreases trank(c), 2int
//@end
//@fn vv_field name=visit_ types=const~Value.*const~Compound.*const~Field file=typelib/value.cc class=ValueVisitor flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=EndianSwapVisitor,ValueVisitor nparams=3 params=_v,c,f
//@spec
    requires old(m_stack)@.len() > 0, vpre(f.m_type, old(m_stack)@.last(), old(mem)@)
    ensures vpost(old(mem)@, final(mem)@, f.m_type, old(m_stack)@.last(), r), r is Ok ==> final(m_stack)@ == old(m_stack)@
    decreases trank(f.m_type), 6int
//@end
//@fn tv_pointer name=visit_ types=^const~Pointer file=typelib/typevisitor.cc class=TypeVisitor flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor params=ty
//@spec
    requires old(m_stack)@.len() > 0, tcat(ty) == Pointer, vpre(tind(ty), old(m_stack)@.last(), old(mem)@)
    ensures vpost(old(mem)@, final(mem)@, tind(ty), old(m_stack)@.last(), r), r is Ok ==> final(m_stack)@ == old(m_stack)@
    decreases trank(tind(ty)), 5int
//@end
//@fn tv_field name=visit_ types=const~Compound.*const~Field file=typelib/typevisitor.cc class=TypeVisitor flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor nparams=2 params=ty,field
//@spec
    requires old(m_stack)@.len() > 0, vpre(field.m_type, old(m_stack)@.last(), old(mem)@)
    ensures vpost(old(mem)@, final(mem)@, field.m_type, old(m_stack)@.last(), r), r is Ok ==> final(m_stack)@ == old(m_stack)@
    decreases trank(field.m_type), 5int
//@end
//@fn tv_compound name=visit_ types=^const~Compound file=typelib/typevisitor.cc class=TypeVisitor flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor nparams=1 params=ty
//@spec
    requires old(m_stack)@.len() > 0, tcat(ty) == Compound, vpre(ty, old(m_stack)@.last(), old(mem)@)
    ensures vpost(old(mem)@, final(mem)@, ty, old(m_stack)@.last(), r), r is Ok ==> final(m_stack)@ == old(m_stack)@
    decreases trank(ty), 1int
//@at entry
    let ghost m0 = mem@; let ghost p0 = m_stack@.last() as int; let ghost nf = tfields(ty).len() as int;
    proof { lemma_none(m0, p0); }
//@loop 1
    invariant *it.v == tfieldlist(ty), end.v == it.v, end.i == it.v@.len(), it.i <= it.v@.len(), m_stack@ == old(m_stack)@, m_stack@.len() > 0, vpre(ty, old(m_stack)@.last(), m0), m0 == old(mem)@, tcat(ty) == Compound, p0 == m_stack@.last(), nf == tfields(ty).len(),
        okif(ty, it.i as int), moved(m0, mem@, m0, p0, vfm(ty, p0, it.i as int))
    decreases it.v@.len() - it.i
//@at loop1.begin
    let ghost b0 = mem@; let ghost i = it.i as int; let ghost f = tfields(ty)[i]; let ghost q = p0 + f.m_offset;
    proof { lemma_wff(ty, i, nf); lemma_nocf(ty, i, nf); lemma_okif(ty, i + 1, nf); lemma_vf(ty, p0, i); }
//@at call:td_field#1.err
    proof { assert(apart(m0, mem@, p0, tsize(ty) as int)); }
//@at call:td_field#1.after
    proof { lemma_vm(f.m_type, q); lemma_glue(m0, b0, mem@, p0, vfm(ty, p0, i), q, vmap(f.m_type, q)); }
//@at loop1.after
    proof { assert(it.i == nf); lemma_vf(ty, p0, nf); lemma_tail(m0, mem@, p0, vfm(ty, p0, nf), (tsize(ty) - lend(ty, nf)) as nat); lemma_vm(ty, p0); }
//@end
//@fn tv_dispatch name=dispatch file=typelib/typevisitor.cc class=TypeVisitor flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor params=ty
//@spec
    requires old(m_stack)@.len() > 0, vpre(ty, old(m_stack)@.last(), old(mem)@)
    ensures vpost(old(mem)@, final(mem)@, ty, old(m_stack)@.last(), r), r is Ok ==> final(m_stack)@ == old(m_stack)@
    decreases trank(ty), 4int
//@end
//@fn tv_apply name=apply file=typelib/typevisitor.cc class=TypeVisitor flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor params=ty
//@spec
    requires old(m_stack)@.len() > 0, vpre(ty, old(m_stack)@.last(), old(mem)@)
    ensures r is Ok <==> oki(ty), apart(old(mem)@, final(mem)@, old(m_stack)@.last() as int, tsize(ty) as int), r is Ok ==> moved(old(mem)@, final(mem)@, old(mem)@, old(m_stack)@.last() as int, vmap(ty, old(m_stack)@.last() as int)) && final(m_stack)@ == old(m_stack)@
//@end
//@fn td_apply name=apply file=typelib/value.cc class=TypeDispatch flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=TypeDispatch,TypeVisitor
//@spec
    requires vpre(value.t, value.p, old(mem)@)
    ensures r is Ok <==> oki(value.t), apart(old(mem)@, final(mem)@, value.p as int, tsize(value.t) as int), r is Ok ==> moved(old(mem)@, final(mem)@, old(mem)@, value.p as int, vmap(value.t, value.p as int))
//@end
//@fn vv_apply name=apply file=typelib/value.cc class=ValueVisitor flat=m_stack:&mut~Vec<usize>,mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=EndianSwapVisitor,ValueVisitor
//@spec
    requires vpre(v.t, v.p, old(mem)@)
    ensures r is Ok <==> oki(v.t), apart(old(mem)@, final(mem)@, v.p as int, tsize(v.t) as int), r is Ok ==> moved(old(mem)@, final(mem)@, old(mem)@, v.p as int, vmap(v.t, v.p as int))
//@end
//@fn endian_swap file=typelib/endianness.cc flat=mem:&mut~Vec<u8> link=m_dispatcher:TypeDispatch|TypeVisitor,m_visitor:EndianSwapVisitor|ValueVisitor vals=addr throws=yes dyn=EndianSwapVisitor,ValueVisitor nmem=mem
//@spec
    requires vpre(v.t, v.p, old(mem)@)
    ensures r is Ok <==> oki(v.t), apart(old(mem)@, final(mem)@, v.p as int, tsize(v.t) as int), r is Ok ==> moved(old(mem)@, final(mem)@, old(mem)@, v.p as int, vmap(v.t, v.p as int))
//@end
// what a user sees: converting a value in place gives what the compiled conversion writes, and converting it again gives the value back
pub open spec fn window(m: Seq<u8>, p: int, n: int) -> Seq<u8> { m.subrange(p, p + n) }
pub fn theorem_inplace(v: VRef, mem: &mut Vec<u8>) -> (r: Result<(), Ex>)
    requires vpre(v.t, v.p, old(mem)@)
    ensures r is Ok <==> oki(v.t), apart(old(mem)@, final(mem)@, v.p as int, tsize(v.t) as int),
        r is Ok && okc(v.t) ==> window(final(mem)@, v.p as int, tsize(v.t) as int) == swapped(v.t, window(old(mem)@, v.p as int, tsize(v.t) as int))
{
    let ghost m0 = mem@; let ghost p = v.p as int; let ghost n = tsize(v.t) as int; let ghost t = v.t;
    match endian_swap(mem, v) { Ok(_) => {} Err(e) => { return Err(e); } }
    proof { if okc(t) {
        theorem_agree(t, p); theorem_agree(t, 0); lemma_shift(t, p); lemma_vm(t, p); lemma_vm(t, 0);
        let s = smap(t, 0); let w = window(m0, p, n);
        assert forall|k: int| 0 <= k < n implies window(mem@, p, n)[k] == swapped(t, w)[k] by { assert(vmap(t, p)[k] == s[k] + p); assert(s[k] == vmap(t, 0)[k]); assert(mem@[p + k] == m0[vmap(t, p)[k]]); }
        assert(window(mem@, p, n) =~= swapped(t, w));
    } }
    Ok(())
}
pub fn theorem_inplace_twice(v: VRef, mem: &mut Vec<u8>) -> (r: Result<(), Ex>)
    requires vpre(v.t, v.p, old(mem)@)
    ensures r is Ok <==> oki(v.t), r is Ok ==> final(mem)@ == old(mem)@
{
    let ghost m0 = mem@; let ghost p = v.p as int;
    match endian_swap(mem, v) { Ok(_) => {} Err(e) => { return Err(e); } }
    let ghost m1 = mem@;
    match endian_swap(mem, v) { Ok(_) => {} Err(e) => { return Err(e); } }
    proof {
        lemma_vm(v.t, p); let h = vmap(v.t, p);
        assert forall|k: int| 0 <= k < m0.len() implies mem@[k] == m0[k] by { if p <= k < p + h.len() { assert(m1[h[k - p]] == m0[h[h[k - p] - p]]); } }
        assert(mem@ =~= m0);
    }
    Ok(())
}
pub proof fn lemma_shift(t: TyRef, o: int)
    requires wft(t), oki(t)
    ensures vmap(t, o) == vmap(t, 0).map_values(|x: int| x + o)
{ lemma_sh(t, 0, o); }
pub proof fn lemma_sh(t: TyRef, b: int, o: int)
    requires wft(t), oki(t)
    ensures vmap(t, b + o) == vmap(t, b).map_values(|x: int| x + o)
    decreases trank(t), 0nat, tfields(t).len() + 1
{
    let g = |x: int| x + o;
    if tcat(t) == Array { if tdim(t) > 0 { lemma_sh_a(tind(t), b, o, tdim(t) as int); } }
    else if tcat(t) == Compound { lemma_sh_f(t, b, o, tfields(t).len() as int); }
    assert(vmap(t, b + o) =~= vmap(t, b).map_values(g));
}
pub proof fn lemma_sh_a(e: TyRef, b: int, o: int, n: int)
    requires wft(e), oki(e), n >= 0
    ensures vam(e, b + o, n) == vam(e, b, n).map_values(|x: int| x + o)
    decreases trank(e), 1nat, n
{
    let g = |x: int| x + o;
    if n > 0 { lemma_sh_a(e, b, o, n - 1); lemma_sh(e, b + (n - 1) * tsize(e), o); assert(b + o + (n - 1) * tsize(e) == b + (n - 1) * tsize(e) + o); }
    assert(vam(e, b + o, n) =~= vam(e, b, n).map_values(g));
}
pub proof fn lemma_sh_f(t: TyRef, b: int, o: int, n: int)
    requires wff(t, n), okif(t, n), n >= 0
    ensures vfm(t, b + o, n) == vfm(t, b, n).map_values(|x: int| x + o)
    decreases trank(t), 0nat, n
{
    let g = |x: int| x + o;
    if n > 0 { lemma_sh_f(t, b, o, n - 1); let f = tfields(t)[n - 1]; lemma_sh(f.m_type, b + f.m_offset, o); assert(b + o + f.m_offset == b + f.m_offset + o); }
    assert(vfm(t, b + o, n) =~= vfm(t, b, n).map_values(g));
}
