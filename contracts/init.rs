//@include icells.rs
pub open spec fn cont_born(m: MV, m2: MV, o: int, p: usize) -> bool {
    &&& m2.b.len() == m.b.len() && m2.c == m.c.insert(o, CV { p: p, e: Seq::<MV>::empty() })
    &&& forall|i: int| 0 <= i < m.b.len() && !(o <= i < o + csize(p)) ==> #[trigger] m2.b[i] == m.b[i]
}
impl ContRef {
    // constructs the container object: the memory must not hold one already
    #[verifier::external_body]
    pub fn init(self, m: &mut Mem, o: usize)
        requires o + csize(self.h()) <= old(m)@.b.len(), free(old(m)@, o as int, csize(self.h()) as int), is_cont(self.h())
        ensures cont_born(old(m)@, final(m)@, o as int, self.h())
    { unimplemented!() }
}
#[verifier::external_body]
pub fn copy_words(a: OpIt, b: OpIt, m: &mut Mem, o: usize) -> (r: usize)
    requires a.v == b.v, a.i <= b.i <= a.v@.len(), o + (b.i - a.i) <= old(m)@.b.len(), b.i > a.i ==> free(old(m)@, o as int, b.i - a.i)
    ensures final(m)@.c == old(m)@.c, final(m)@.b == splice(old(m)@.b, o as int, to_bytes(a.v@.subrange(a.i as int, b.i as int))), r == o + (b.i - a.i)
{ unimplemented!() }
pub open spec fn is_new(cc: Seq<ICell>, j: int) -> bool { 0 <= j < cc.len() && cc[j] is New }
pub open spec fn blank(cc: Seq<ICell>, m: MV, o: int) -> bool { 0 <= o && o + cc.len() <= m.b.len() && disj(m) && (cc.len() > 0 ==> free(m, o, cc.len() as int)) }
// the first d cells have been executed on raw memory m0
pub open spec fn ist(cc: Seq<ICell>, m0: MV, m: MV, o: int, d: int) -> bool {
    &&& 0 <= d <= cc.len() && blank(cc, m0, o) && m.b.len() == m0.b.len() && disj(m)
    &&& forall|k: int| #[trigger] m.c.dom().contains(k) <==> m0.c.dom().contains(k) || (o <= k < o + d && is_new(cc, k - o))
    &&& forall|k: int| #[trigger] m0.c.dom().contains(k) ==> m.c[k] == m0.c[k]
    &&& forall|k: int| #[trigger] m.c.dom().contains(k) && !m0.c.dom().contains(k) ==> ext(m, k) <= o + d
    &&& forall|j: int| 0 <= j < d ==> (match #[trigger] cc[j] {
            ICell::Set(v) => m.b[o + j] == v,
            ICell::Keep => m.b[o + j] == m0.b[o + j],
            ICell::New(p) => m.c[o + j] == (CV { p: p, e: Seq::<MV>::empty() }),
            ICell::NTail => true })
    &&& forall|i: int| 0 <= i < m0.b.len() && !(o <= i < o + d) ==> #[trigger] m.b[i] == m0.b[i]
}
pub proof fn lemma_i_start(cc: Seq<ICell>, m: MV, o: int)
    requires blank(cc, m, o)
    ensures ist(cc, m, m, o, 0)
{}
pub proof fn lemma_i_len(cc: Seq<ICell>, m0: MV, m: MV, o: int, d: int)
    requires ist(cc, m0, m, o, d)
    ensures m.b.len() == m0.b.len(), o + cc.len() <= m.b.len()
{}
pub proof fn lemma_i_elem(cc: Seq<ICell>, m0: MV, m: MV, o: int, d: int, b: Seq<ICell>)
    requires ist(cc, m0, m, o, d), isame(cc, d, b)
    ensures blank(b, m, o + d), o + d + b.len() <= m.b.len()
{
    if b.len() > 0 {
        assert forall|k: int| #[trigger] m.c.dom().contains(k) implies ext(m, k) <= o + d || o + d + b.len() <= k by {
            if m0.c.dom().contains(k) { assert(m.c[k] == m0.c[k]); assert(ext(m, k) == ext(m0, k)); axiom_cont(m.c[k].p); }
        }
    }
}
pub proof fn lemma_i_part(cc: Seq<ICell>, m0: MV, m: MV, m2: MV, o: int, d: int, b: Seq<ICell>)
    requires ist(cc, m0, m, o, d), isame(cc, d, b), ist(b, m, m2, o + d, b.len() as int)
    ensures ist(cc, m0, m2, o, d + b.len())
{
    assert forall|j: int| d <= j < d + b.len() implies #[trigger] cc[j] == b[j - d] by { assert(cc[d + (j - d)] == b[j - d]); }
    assert forall|k: int| #[trigger] m2.c.dom().contains(k) <==> m0.c.dom().contains(k) || (o <= k < o + d + b.len() && is_new(cc, k - o)) by {
        assert(m.c.dom().contains(k) <==> m0.c.dom().contains(k) || (o <= k < o + d && is_new(cc, k - o)));
        if o + d <= k < o + d + b.len() { assert(cc[k - o] == b[k - o - d]); }
    }
    assert forall|k: int| #[trigger] m0.c.dom().contains(k) implies m2.c[k] == m0.c[k] by { assert(m.c.dom().contains(k)); }
    assert forall|k: int| #[trigger] m2.c.dom().contains(k) && !m0.c.dom().contains(k) implies ext(m2, k) <= o + d + b.len() by {
        if m.c.dom().contains(k) { assert(m2.c[k] == m.c[k]); assert(ext(m2, k) == ext(m, k)); }
    }
    assert forall|j: int| 0 <= j < d + b.len() implies (match #[trigger] cc[j] {
            ICell::Set(v) => m2.b[o + j] == v, ICell::Keep => m2.b[o + j] == m0.b[o + j],
            ICell::New(p) => m2.c[o + j] == (CV { p: p, e: Seq::<MV>::empty() }), ICell::NTail => true }) by {
        if j < d { assert(m2.b[o + j] == m.b[o + j]); if cc[j] is New { assert(is_new(cc, o + j - o)); assert(m.c.dom().contains(o + j)); } }
        else { assert(cc[d + (j - d)] == b[j - d]); assert(m.b[o + j] == m0.b[o + j]); assert(b[j - d] is Keep ==> m2.b[o + d + (j - d)] == m.b[o + d + (j - d)]); }
    }
    assert forall|i: int| 0 <= i < m0.b.len() && !(o <= i < o + d + b.len()) implies #[trigger] m2.b[i] == m0.b[i] by { assert(m.b[i] == m0.b[i]); assert(m2.b[i] == m.b[i]); }
}
pub proof fn lemma_i_set(cc: Seq<ICell>, m0: MV, m: MV, o: int, d: int, w: Seq<usize>)
    requires ist(cc, m0, m, o, d), isame(cc, d, isets(w))
    ensures w.len() > 0 ==> free(m, o + d, w.len() as int), o + d + w.len() <= m.b.len(),
        forall|m2: MV| #[trigger] m2.b == splice(m.b, o + d, to_bytes(w)) && m2.c == m.c ==> ist(cc, m0, m2, o, d + w.len())
{
    let b = isets(w);
    lemma_i_elem(cc, m0, m, o, d, b);
    assert forall|m2: MV| #[trigger] m2.b == splice(m.b, o + d, to_bytes(w)) && m2.c == m.c implies ist(cc, m0, m2, o, d + w.len()) by {
        lemma_shp_disj(m, m2);
        lemma_i_part(cc, m0, m, m2, o, d, b);
    }
}
pub proof fn lemma_shp_disj(a: MV, b: MV)
    requires disj(a), a.b.len() == b.b.len(), a.c == b.c
    ensures disj(b)
{
    assert forall|k: int| #[trigger] b.c.dom().contains(k) implies 0 <= k && ext(b, k) <= b.b.len() && is_cont(b.c[k].p) by { assert(ext(a, k) == ext(b, k)); }
    assert forall|k: int, q: int| #[trigger] b.c.dom().contains(k) && #[trigger] b.c.dom().contains(q) && k < q implies ext(b, k) <= q by { assert(ext(a, k) == ext(b, k)); }
}
pub proof fn lemma_i_keep(cc: Seq<ICell>, m0: MV, m: MV, o: int, d: int, n: nat)
    requires ist(cc, m0, m, o, d), isame(cc, d, ikeeps(n))
    ensures ist(cc, m0, m, o, d + n), o + d + n <= m.b.len()
{
    lemma_i_elem(cc, m0, m, o, d, ikeeps(n));
    lemma_i_part(cc, m0, m, m, o, d, ikeeps(n));
}
pub proof fn lemma_i_cont(cc: Seq<ICell>, m0: MV, m: MV, o: int, d: int, p: usize)
    requires ist(cc, m0, m, o, d), isame(cc, d, icont(p)), is_cont(p)
    ensures o + d + csize(p) <= m.b.len(), free(m, o + d, csize(p) as int),
        forall|m2: MV| #[trigger] cont_born(m, m2, o + d, p) ==> ist(cc, m0, m2, o, d + csize(p))
{
    axiom_cont(p);
    let b = icont(p);
    assert(b.len() == csize(p));
    lemma_i_elem(cc, m0, m, o, d, b);
    assert forall|m2: MV| #[trigger] cont_born(m, m2, o + d, p) implies ist(cc, m0, m2, o, d + csize(p)) by {
        let k0 = o + d;
        assert(ext(m2, k0) == k0 + csize(p));
        assert(!m.c.dom().contains(k0)) by { if m.c.dom().contains(k0) { axiom_cont(m.c[k0].p); assert(ext(m, k0) <= o + d || o + d + b.len() <= k0); } }
        assert(disj(m2)) by {
            assert forall|k: int| #[trigger] m2.c.dom().contains(k) implies 0 <= k && ext(m2, k) <= m2.b.len() && is_cont(m2.c[k].p) by { if k != k0 { assert(m.c.dom().contains(k)); assert(ext(m2, k) == ext(m, k)); } }
            assert forall|k: int, q: int| #[trigger] m2.c.dom().contains(k) && #[trigger] m2.c.dom().contains(q) && k < q implies ext(m2, k) <= q by {
                if k != k0 { assert(m.c.dom().contains(k)); assert(ext(m2, k) == ext(m, k)); axiom_cont(m.c[k].p); }
                if q != k0 { assert(m.c.dom().contains(q)); assert(ext(m2, q) == ext(m, q)); axiom_cont(m.c[q].p); }
            }
        }
        assert forall|k: int| #[trigger] m2.c.dom().contains(k) <==> m.c.dom().contains(k) || (k0 <= k < k0 + b.len() && is_new(b, k - k0)) by {
            assert(b[0] is New);
            if k0 < k < k0 + b.len() { assert(b[k - k0] == ICell::NTail); }
        }
        assert forall|k: int| #[trigger] m2.c.dom().contains(k) && !m.c.dom().contains(k) implies ext(m2, k) <= k0 + b.len() by {}
        assert(ist(b, m, m2, o + d, b.len() as int));
        lemma_i_part(cc, m0, m, m2, o, d, b);
    }
}
//@fn vinit file=typelib/value_ops.cc name=init static=yes params=buffer,begin,end throws=yes filter=Typelib::ValueOps
//@locals it:OpIt<'a>
//@spec
    requires begin.v == end.v, begin.i <= end.i, end.i == end.v@.len(), iblk(begin.v@, begin.i as int) is Some,
        old(mem_buffer)@.b.len() <= usize::MAX, blank(ibc(begin.v@, begin.i as int), old(mem_buffer)@, buffer as int)
    ensures r is Ok, r->Ok_0.1.v == begin.v, r->Ok_0.1.i == ibe(begin.v@, begin.i as int), r->Ok_0.0 == buffer + ibc(begin.v@, begin.i as int).len(),
        ist(ibc(begin.v@, begin.i as int), old(mem_buffer)@, final(mem_buffer)@, buffer as int, ibc(begin.v@, begin.i as int).len() as int)
    decreases end.i - begin.i
//@hide blk iblk isb irep iat free ist blank cont_born isame ihead
//@at entry
    let ghost s = begin.v@; let ghost cc = ibc(s, begin.i as int); let ghost e0 = ibe(s, begin.i as int); let ghost m0 = mem_buffer@;
    let ghost o0 = buffer as int;
    proof { lemma_iat_start(s, begin.i as int); lemma_i_start(cc, m0, o0); lemma_i_len(cc, m0, m0, o0, 0); lemma_iblk_end(s, begin.i as int); axiom_vec_words(*begin.v); }
//@loop 1
    invariant it.v == begin.v, begin.i <= it.i <= end.i, o0 <= buffer, iat(s, it.i as int, cc, buffer - o0, e0),
        ist(cc, m0, mem_buffer@, o0, buffer - o0)
    decreases end.i - it.i
//@at loop1.begin
    let ghost d0 = buffer - o0; let ghost m1 = mem_buffer@; let ghost k0 = it.i as int;
    proof { lemma_iat_op(s, k0, cc, d0, e0); lemma_i_len(cc, m0, m1, o0, d0); if s[k0] != FLAG_INIT_REPEAT { lemma_iat_head(s, k0, cc, d0, e0); } }
//@at loop1.after
    proof { lemma_iat_end(s, it.i as int, cc, buffer - o0, e0); }
//@at case:FLAG_INIT.begin
    proof { reveal(ihead); lemma_i_set(cc, m0, m1, o0, d0, s.subrange(k0 + 2, k0 + 2 + s[k0 + 1])); }
//@at case:FLAG_INIT_SKIP.begin
    proof { reveal(ihead); lemma_i_keep(cc, m0, m1, o0, d0, s[k0 + 1] as nat); }
//@at case:FLAG_INIT_REPEAT.begin
    let ghost n = s[k0 + 1] as nat; let ghost b = ibc(s, k0 + 2); let ghost e1 = ibe(s, k0 + 2);
    proof { lemma_iat_rep(s, k0, cc, d0, e0); reveal_with_fuel(irep, 1); }
//@loop 2
    invariant i <= n, buffer == o0 + d0 + irep(b, i as nat).len(), 
        n == 0 || i > 0 ==> it.v == begin.v && it.i == e1,
        ist(cc, m0, mem_buffer@, o0, buffer - o0)
    decreases n - i
//@at loop2.begin
    let ghost m2 = mem_buffer@; let ghost d2 = buffer - o0;
    proof { reveal(isame); lemma_ielem(cc, d0, b, i as nat, n); lemma_i_len(cc, m0, m2, o0, d2); lemma_i_elem(cc, m0, m2, o0, d2, b); }
//@at call:vinit#1.after
    proof { lemma_i_part(cc, m0, m2, mem_buffer@, o0, d2, b); }
//@at case:FLAG_INIT_CONTAINER.begin
    proof { reveal(ihead); lemma_i_cont(cc, m0, m1, o0, d0, s[k0 + 1]); }
//@end
