//@include c09c.rs
// ---------------------------------------------------------------- Endian::swap
//@inst inst_es.cc #include <typelib/endian_swap.hh>\ntemplate unsigned int Typelib::Endian::swap<unsigned int>(const unsigned int); \ntemplate unsigned long Typelib::Endian::swap<unsigned long>(const unsigned long);
//@fn es_swapv4 name=swap types=^const~unsigned~int nparams=1 targs=unsigned~int file=@inst_es.cc filter=Endian::swap
//@spec
    ensures r == bswap4(data), forall|k: int| 0 <= k < 4 ==> #[trigger] b4(r, k) == b4(data, 3 - k)
//@at entry
    proof { theorem_bswap4(data); }
//@end
//@fn es_swapv8 name=swap types=^const~unsigned~long nparams=1 targs=unsigned~long file=@inst_es.cc filter=Endian::swap
//@spec
    ensures r == bswap8(data), forall|k: int| 0 <= k < 8 ==> #[trigger] b8(r, k) == b8(data, 7 - k)
//@at entry
    proof { theorem_bswap8(data); }
//@end
// ---------------------------------------------------------------- execution of a description
#[verifier::external_body]
pub fn arbitrary_opit<'a>() -> OpIt<'a> { unimplemented!() }
// numbers in memory, least significant byte first on this platform
#[verifier::external_body]
pub fn rd32(b: &Vec<u8>, i: usize) -> (r: u32) requires i + 4 <= b@.len() ensures forall|k: int| 0 <= k < 4 ==> #[trigger] b4(r, k) == b@[i + k] { unimplemented!() }
#[verifier::external_body]
pub fn rd64(b: &Vec<u8>, i: usize) -> (r: usize) requires i + 8 <= b@.len() ensures forall|k: int| 0 <= k < 8 ==> #[trigger] b8(r, k) == b@[i + k] { unimplemented!() }
#[verifier::external_body]
pub fn wr32(b: &mut Vec<u8>, i: usize, v: u32) requires i + 4 <= old(b)@.len()
    ensures final(b)@.len() == old(b)@.len(), forall|k: int| 0 <= k < old(b)@.len() ==> #[trigger] final(b)@[k] == if i <= k < i + 4 { b4(v, k - i) } else { old(b)@[k] } { unimplemented!() }
#[verifier::external_body]
pub fn wr64(b: &mut Vec<u8>, i: usize, v: usize) requires i + 8 <= old(b)@.len()
    ensures final(b)@.len() == old(b)@.len(), forall|k: int| 0 <= k < old(b)@.len() ==> #[trigger] final(b)@[k] == if i <= k < i + 8 { b8(v, k - i) } else { old(b)@[k] } { unimplemented!() }
// b is a with the bytes from o on taken from x as m tells
pub open spec fn moved(a: Seq<u8>, b: Seq<u8>, x: Seq<u8>, o: int, m: Seq<int>) -> bool {
    a.len() == b.len() && (forall|k: int| #![trigger b[k]] 0 <= k < a.len() ==> b[k] == if o <= k < o + m.len() { x[m[k - o]] } else { a[k] })
}
pub open spec fn inside(m: Seq<int>, n: int) -> bool { forall|k: int| 0 <= k < m.len() ==> 0 <= #[trigger] m[k] < n }
pub open spec fn fits(v: Seq<usize>, i: int, o: int, d: int, n: int, l: int) -> bool {
    ewf(v, i) && 0 <= d <= o && o + eln(v, i) <= l && l <= lim() && inside(srcs(v, i, o, d), n)
}
pub proof fn lemma_moved(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, x: Seq<u8>, o: int, s: Seq<int>, p: int, h: Seq<int>, t: Seq<int>)
    requires moved(a, b, x, o, s.take(p)), moved(b, c, x, o + p, h), 0 <= p <= s.len(), s.skip(p) == h + t
    ensures moved(a, c, x, o, s.take(p + h.len())), s.skip(p + h.len()) == t, p + h.len() <= s.len()
{
    assert(s.skip(p).len() == h.len() + t.len());
    assert(forall|k: int| 0 <= k < h.len() ==> s.skip(p)[k] == h[k]);
    assert(s.skip(p + h.len()) =~= s.skip(p).skip(h.len() as int));
    assert(s.skip(p).skip(h.len() as int) =~= t);
    assert forall|k: int| #![trigger c[k]] 0 <= k < a.len() implies c[k] == if o <= k < o + s.take(p + h.len()).len() { x[s.take(p + h.len())[k - o]] } else { a[k] } by {
        if o + p <= k < o + p + h.len() { assert(s.skip(p)[k - o - p] == h[k - o - p]); assert(s[k - o] == h[k - o - p]); } else { assert(c[k] == b[k]); }
    }
}
pub proof fn lemma_srep_prefix(s: Seq<usize>, i: int, o: int, d: int, k: nat, n: nat)
    requires k <= n, ewf(s, i)
    ensures srep(s, i, o, d, eln(s, i), k).len() <= srep(s, i, o, d, eln(s, i), n).len(), srep(s, i, o, d, eln(s, i), n).take(srep(s, i, o, d, eln(s, i), k).len() as int) == srep(s, i, o, d, eln(s, i), k)
    decreases n
{
    let es = eln(s, i); let a = srep(s, i, o, d, es, k); let b = srep(s, i, o, d, es, n);
    if k == n { assert(b.take(a.len() as int) =~= a); }
    else {
        lemma_srep_prefix(s, i, o, d, k, (n - 1) as nat);
        let r = srep(s, i, o, d, es, (n - 1) as nat);
        assert(b == r + srcs(s, i, o + r.len(), d + es * (n - 1)));
        assert(b.take(a.len() as int) =~= r.take(a.len() as int));
    }
}
//@fn es_run name=swap nparams=6 file=typelib/endianness.cc class=CompileEndianSwapVisitor flat=m_compiled:&'a~Vec<usize> dyn=CompileEndianSwapVisitor,TypeVisitor link=-:- params=output_offset,input_offset,it,end,inp,outp bytes=inp:const,outp:mut
//@spec
    requires end.v == it.v, end.i == it.v@.len(), fits(it.v@, it.i as int, output_offset as int, input_offset as int, inp@.len() as int, old(outp)@.len() as int)
    ensures r.0 == output_offset + eln(it.v@, it.i as int), r.1.v == it.v, r.1.i == eend(it.v@, it.i as int),
        moved(old(outp)@, final(outp)@, inp@, output_offset as int, srcs(it.v@, it.i as int, output_offset as int, input_offset as int))
    decreases it.v@.len() - it.i
//@at entry
    let ghost v0 = it.v@; let ghost i0 = it.i as int; let ghost o0 = output_offset as int; let ghost d0 = input_offset as int; let ghost x0 = inp@; let ghost a0 = outp@; let ghost s0 = srcs(v0, i0, o0, d0);
    proof { lemma_eln(v0, i0); assert(s0.take(0) =~= Seq::<int>::empty()); assert(s0.skip(0) =~= s0); lemma_eend(v0, i0); }
//@loop 1
    invariant it.v@ == v0, it.v == it_0.v, i0 <= it.i <= v0.len(), ewf(v0, it.i as int), eend(v0, i0) == eend(v0, it.i as int), 0 <= output_offset - o0 <= s0.len(), s0.skip(output_offset - o0) == srcs(v0, it.i as int, output_offset as int, d0),
        moved(a0, outp@, x0, o0, s0.take(output_offset - o0))
    decreases v0.len() - it.i
//@at loop1.begin
    let ghost j = it.i as int; let ghost q = output_offset as int; let ghost p = q - o0; let ghost b0 = outp@; let ghost h = hd(v0, j, q, d0); let ghost t = srcs(v0, nx(v0, j), q + h.len(), d0);
    proof {
        if v0[j] != ES_END {
            lemma_step(v0, j);
            assert(s0.skip(p) == h + t);
            assert(s0.skip(p).len() == h.len() + t.len());
            assert forall|k: int| 0 <= k < h.len() implies 0 <= #[trigger] h[k] < x0.len() by { assert(s0.skip(p)[k] == h[k]); assert(s0[p + k] == h[k]); }
            assert(q + h.len() <= o0 + s0.len());
            if v0[j] == ES_SWAP_4 { assert(h[0] == q + 3); }
            else if v0[j] == ES_SWAP_8 { assert(h[0] == q + 7); }
            else if v0[j] != ES_SKIP && v0[j] != ES_ARRAY { assert(h[0] == v0[j] + d0); }
            if v0[j] == ES_ARRAY { lemma_eln(v0, j + 3); lemma_srep_len(v0, j + 3, q, d0, v0[j + 1] as nat); }
        } else { assert(srcs(v0, j, q, d0) =~= Seq::<int>::empty()); assert(s0.skip(p).len() == 0); assert(s0.take(p) =~= s0); }
    }
//@at loop1.end
    proof { assert(it.i == nx(v0, j)); assert(output_offset == q + h.len()); assert(moved(b0, outp@, x0, q, h)); lemma_moved(a0, b0, outp@, x0, o0, s0, p, h, t); }
//@loop 2
    invariant i <= skip_size, skip_size == v0[j + 1], it.i == j + 1, it.v@ == v0, it.v == it_0.v, output_offset == q + i, moved(b0, outp@, x0, q, ident(q, i as nat))
    decreases skip_size - i
//@at loop2.begin
    assert(h[i as int] == q + i);
//@at loop2.after
    assert(ident(q, skip_size as nat) =~= h);
//@loop 3
    invariant i <= array_size, array_size == v0[j + 1], element_size == v0[j + 2], it.i == j + 3, it.v@ == v0, it.v == it_0.v, output_offset == q + pmul(element_size as int, i as int), moved(b0, outp@, x0, q, srep(v0, j + 3, q, d0, element_size as int, i as nat)),
        i > 0 ==> array_end.v == it_0.v && array_end.i == eend(v0, j + 3)
    decreases array_size - i
//@at loop3.begin
    let ghost r0 = srep(v0, j + 3, q, d0, element_size as int, i as nat); let ghost b1 = outp@; let ghost e1 = srcs(v0, j + 3, q + r0.len(), d0 + element_size * i);
    let ghost r1 = srep(v0, j + 3, q, d0, element_size as int, (i + 1) as nat);
    proof {
        lemma_srep_len(v0, j + 3, q, d0, i as nat); lemma_srep_len(v0, j + 3, q, d0, (i + 1) as nat); lemma_srep_prefix(v0, j + 3, q, d0, (i + 1) as nat, array_size as nat);
        assert(r1 == r0 + e1);
        assert(pmul(element_size as int, i as int) == element_size * i);
        assert(h.take(r1.len() as int) == r1);
        assert forall|k: int| 0 <= k < e1.len() implies 0 <= #[trigger] e1[k] < x0.len() by { assert(r1[r0.len() + k] == e1[k]); assert(h.take(r1.len() as int)[r0.len() + k] == e1[k]); assert(h[r0.len() + k] == e1[k]); }
        assert(r1.len() <= h.len());
    }
//@at loop3.end
    proof {
        assert(r1.take(r0.len() as int) =~= r0); assert(r1.skip(r0.len() as int) =~= e1 + Seq::<int>::empty());
        lemma_moved(b0, b1, outp@, x0, q, r1, r0.len() as int, e1, Seq::<int>::empty());
        assert(r1.take(r1.len() as int) =~= r1);
    }
//@at return#1
    proof { assert(s0.take(s0.len() as int) =~= s0); }
//@at return#2
    proof { assert(srcs(v0, it.i as int, output_offset as int, d0) =~= Seq::<int>::empty()); assert(s0.skip(output_offset - o0).len() == 0); assert(s0.take(s0.len() as int) =~= s0); }
//@end
//@fn es_swap name=swap nparams=2 file=typelib/endianness.cc class=CompileEndianSwapVisitor flat=m_compiled:&'a~Vec<usize> dyn=CompileEndianSwapVisitor,TypeVisitor link=-:- params=inp,outp bytes=inp:const,outp:mut
//@spec
    requires fits(m_compiled@, 0, 0, 0, inp@.len() as int, old(outp)@.len() as int)
    ensures moved(old(outp)@, final(outp)@, inp@, 0, srcs(m_compiled@, 0, 0, 0))
//@end
// ---------------------------------------------------------------- the whole conversion
// taking byte m[k] for byte k, twice, changes nothing
pub open spec fn inv(m: Seq<int>, o: int) -> bool { forall|k: int| 0 <= k < m.len() ==> o <= #[trigger] m[k] < o + m.len() && m[m[k] - o] == o + k }
pub proof fn lemma_inv_cat(a: Seq<int>, b: Seq<int>, o: int)
    requires inv(a, o), inv(b, o + a.len())
    ensures inv(a + b, o)
{
    let c = a + b;
    assert forall|k: int| 0 <= k < c.len() implies o <= #[trigger] c[k] < o + c.len() && c[c[k] - o] == o + k by {
        if k < a.len() { assert(c[k] == a[k]); assert(c[a[k] - o] == a[a[k] - o]); }
        else { let q = k - a.len(); assert(c[k] == b[q]); assert(c[b[q] - o] == b[b[q] - o - a.len()]); }
    }
}
pub proof fn lemma_inv_basic(o: int, n: nat)
    ensures inv(ident(o, n), o), inv(rev(o, n), o)
{}
pub proof fn lemma_inv_map(t: TyRef, o: int)
    requires wft(t), okc(t)
    ensures inv(smap(t, o), o)
    decreases trank(t), 0nat, tfields(t).len() + 1
{
    if tcat(t) == Numeric || tcat(t) == Enum { lemma_inv_basic(o, tsize(t) as nat); }
    else if tcat(t) == Array { lemma_inv_array(tind(t), o, tdim(t) as int); }
    else if tcat(t) == Compound {
        let n = tfields(t).len() as int;
        lemma_inv_fields(t, o, n); lemma_mlen(t, o, n);
        lemma_inv_basic(o + lend(t, n), (tsize(t) - lend(t, n)) as nat);
        lemma_inv_cat(fmap(t, o, n), ident(o + lend(t, n), (tsize(t) - lend(t, n)) as nat), o);
    }
}
pub proof fn lemma_inv_array(e: TyRef, o: int, n: int)
    requires wft(e), okc(e), n >= 0
    ensures inv(amap(e, o, n), o)
    decreases trank(e), 1nat, n
{
    if n > 0 {
        lemma_inv_array(e, o, n - 1); lemma_alen(e, o, n - 1); lemma_inv_map(e, o + (n - 1) * tsize(e));
        lemma_inv_cat(amap(e, o, n - 1), smap(e, o + (n - 1) * tsize(e)), o);
    }
}
pub proof fn lemma_inv_fields(t: TyRef, o: int, n: int)
    requires wff(t, n), okf(t, n), n >= 0
    ensures inv(fmap(t, o, n), o)
    decreases trank(t), 0nat, n
{
    if n > 0 {
        let f = tfields(t)[n - 1]; let g = ident(o + lend(t, n - 1), (f.m_offset - lend(t, n - 1)) as nat);
        lemma_inv_fields(t, o, n - 1); lemma_mlen(t, o, n - 1); lemma_inv_map(f.m_type, o + f.m_offset);
        lemma_inv_basic(o + lend(t, n - 1), (f.m_offset - lend(t, n - 1)) as nat);
        lemma_inv_cat(fmap(t, o, n - 1), g, o);
        lemma_inv_cat(fmap(t, o, n - 1) + g, smap(f.m_type, o + f.m_offset), o);
    }
}
pub open spec fn swapped(t: TyRef, x: Seq<u8>) -> Seq<u8> { Seq::new(tsize(t) as nat, |k: int| x[smap(t, 0)[k]]) }
pub proof fn theorem_swap_twice(t: TyRef, x: Seq<u8>)
    requires wft(t), okc(t), x.len() == tsize(t)
    ensures swapped(t, swapped(t, x)) == x
{ lemma_inv_map(t, 0); lemma_slen(t, 0); assert(swapped(t, swapped(t, x)) =~= x); }
// what a user does: compile the description of the type, then convert values of that type
pub fn theorem_swap(t: TyRef, inp: &Vec<u8>, outp: &mut Vec<u8>) -> (r: Result<(), Ex>)
    requires wft(t), small(), inp@.len() == tsize(t), old(outp)@.len() == tsize(t)
    ensures r is Ok <==> okc(t), r is Ok ==> final(outp)@ == swapped(t, inp@)
{
    let mut m_output_index: usize = 0; let mut m_compiled: Vec<usize> = Vec::new();
    match es_apply(&mut m_output_index, &mut m_compiled, t) { Ok(_) => {} Err(e) => { return Err(e); } }
    proof {
        let c = m_compiled@; let a = Seq::<usize>::empty();
        lemma_stop(a, 0); assert(opn(a, 0)); assert(ad1(a, c, 0, fty(t), 0, 0, 0));
        assert(srcs(c, 0, 0, 0) =~= smap(t, 0));
        lemma_inv_map(t, 0); lemma_slen(t, 0); lemma_eln(c, 0); let k = tcat(t);
    }
    es_swap(&m_compiled, inp, outp);
    proof { assert(outp@ =~= swapped(t, inp@)); }
    Ok(())
}
