//@include tree.rs
//@include join.rs

// The columns of a CSV header: the name of every scalar of a value of the type, in the order of the value.
// concatenation of the pieces of a name
pub open spec fn flat(s: Seq<Seq<u8>>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last() } }
pub proof fn lemma_flat_push(s: Seq<Seq<u8>>, e: Seq<u8>) ensures flat(s.push(e)) == flat(s) + e { assert(s.push(e).drop_last() =~= s); }
pub proof fn lemma_flat_front(e: Seq<u8>, s: Seq<Seq<u8>>) ensures flat(seq![e] + s) == e + flat(s) decreases s.len()
{
    if s.len() == 0 { assert(seq![e] + s =~= seq![e]); assert(seq![e].drop_last() =~= Seq::empty()); assert(flat(seq![e].drop_last()) =~= Seq::<u8>::empty()); assert(flat(seq![e]) =~= e + flat(s)); }
    else { lemma_flat_front(e, s.drop_last()); assert((seq![e] + s).drop_last() =~= seq![e] + s.drop_last()); assert(flat(seq![e] + s) =~= e + flat(s)); }
}
// types that can be shown: finite, no containers, no null types
pub open spec fn okh(t: TyRef) -> bool decreases trank(t), tfields(t).len() + 1
{
    if tcat(t) == Numeric || tcat(t) == Enum || tcat(t) == Opaque { true }
    else if tcat(t) == Pointer || tcat(t) == Array { trank(tind(t)) < trank(t) && okh(tind(t)) }
    else if tcat(t) == Compound { okf(t, tfields(t).len() as int) }
    else { false }
}
pub open spec fn okf(t: TyRef, n: int) -> bool decreases trank(t), n
{ if n <= 0 || n > tfields(t).len() { n == 0 } else { okf(t, n - 1) && trank(tfields(t)[n - 1].m_type) < trank(t) && okh(tfields(t)[n - 1].m_type) } }
pub proof fn lemma_okf(t: TyRef, i: int, n: int)
    requires okf(t, n), 0 <= i < n <= tfields(t).len()
    ensures trank(tfields(t)[i].m_type) < trank(t), okh(tfields(t)[i].m_type)
    decreases n
{ if i < n - 1 { lemma_okf(t, i, n - 1); } }
pub open spec fn derefd(s: Seq<u8>) -> Seq<u8> { seq![42u8, 40u8] + s + seq![41u8] }
pub open spec fn indexed(s: Seq<u8>, i: int) -> Seq<u8> { s + seq![91u8] + sdec(i) + seq![93u8] }
pub open spec fn dotted(s: Seq<u8>) -> Seq<u8> { s + seq![46u8] }
// the columns of a type whose name is s; those of the first n elements of an array; those of the first n fields, where s ends in a dot
pub open spec fn heads(t: TyRef, s: Seq<u8>) -> Seq<Seq<u8>> decreases trank(t), 0nat, tfields(t).len() + 3
{
    if tcat(t) == Numeric || tcat(t) == Enum || tcat(t) == Opaque { seq![s] }
    else if tcat(t) == Pointer { if trank(tind(t)) < trank(t) { heads(tind(t), derefd(s)) } else { Seq::empty() } }
    else if tcat(t) == Array { if trank(tind(t)) < trank(t) { aheads(tind(t), s, tdim(t) as int) } else { Seq::empty() } }
    else if tcat(t) == Compound { fheads(t, dotted(s), tfields(t).len() as int) }
    else { Seq::empty() }
}
pub open spec fn aheads(e: TyRef, s: Seq<u8>, n: int) -> Seq<Seq<u8>> decreases trank(e), 1nat, n when n >= 0
{ if n == 0 { Seq::empty() } else { aheads(e, s, n - 1) + heads(e, indexed(s, n - 1)) } }
pub open spec fn fheads(t: TyRef, s: Seq<u8>, n: int) -> Seq<Seq<u8>> decreases trank(t), 0nat, n
{ if n <= 0 || n > tfields(t).len() || trank(tfields(t)[n - 1].m_type) >= trank(t) { Seq::empty() } else { fheads(t, s, n - 1) + heads(tfields(t)[n - 1].m_type, s + tfields(t)[n - 1].m_name@) } }
pub open spec fn hpost(n0: Seq<Vec<u8>>, n: Seq<Vec<u8>>, h0: Seq<Vec<u8>>, h: Seq<Vec<u8>>, t: TyRef, r: Result<bool, Ex>) -> bool
{ r is Ok && r->Ok_0 && n == n0 && svw(h) == svw(h0) + heads(t, flat(svw(n0))) }
pub open spec fn cpost(n0: Seq<Vec<u8>>, n: Seq<Vec<u8>>, h0: Seq<Vec<u8>>, h: Seq<Vec<u8>>, t: TyRef, r: Result<bool, Ex>) -> bool
{ r is Ok && r->Ok_0 && n == n0 && svw(h) == svw(h0) + fheads(t, flat(svw(n0)), tfields(t).len() as int) }
#[verifier::external_body]
pub fn as_container(t: TyRef) -> (r: TyRef) requires tcat(t) == Container ensures r == t { unimplemented!() }
pub proof fn lemma_flat_joined(s: Seq<Seq<u8>>) ensures flat(s) == joined(s, Seq::empty()) decreases s.len()
{
    if s.len() == 1 { assert(flat(s.drop_last()) =~= Seq::<u8>::empty()); assert(flat(s) =~= s[0]); }
    else if s.len() > 1 { lemma_flat_joined(s.drop_last()); assert(flat(s) =~= joined(s, Seq::empty())); }
}
pub proof fn lemma_svw_push(v: Seq<Vec<u8>>, e: Vec<u8>) ensures svw(v.push(e)) == svw(v).push(e@) { assert(svw(v.push(e)) =~= svw(v).push(e@)); }
#[verifier::external_body]
pub fn arbitrary_vec_vec_u8() -> Vec<Vec<u8>> { unimplemented!() }
