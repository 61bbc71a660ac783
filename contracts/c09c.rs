//@include c09.rs
#[verifier::external_body]
pub fn as_container(t: TyRef) -> (r: TyRef) requires tcat(t) == Container ensures r == t { unimplemented!() }
// size_t wraps
pub fn wadd(a: usize, b: usize) -> (r: usize) ensures a + b <= usize::MAX ==> r == a + b, a + b > usize::MAX ==> r == a + b - 0x1_0000_0000_0000_0000 { a.wrapping_add(b) }
pub fn wsub(a: usize, b: usize) -> (r: usize) ensures a >= b ==> r == a - b, a < b ==> r == a - b + 0x1_0000_0000_0000_0000 { a.wrapping_sub(b) }
pub open spec fn prod(a: usize, b: usize) -> int { a * b }
#[verifier::external_body]
pub fn wmul(a: usize, b: usize) -> (r: usize) ensures prod(a, b) <= usize::MAX ==> r == prod(a, b) { a.wrapping_mul(b) }
#[verifier::external_body]
pub fn arbitrary_vec_usize() -> Vec<usize> { unimplemented!() }
// ---------------------------------------------------------------- what a type compiles to
pub open spec fn small() -> bool { forall|e: TyRef| (#[trigger] tcat(e) == Enum ==> tsize(e) == 4) && tsize(e) <= lim() }
pub open spec fn okc(t: TyRef) -> bool decreases trank(t), tfields(t).len() + 1
{
    if tcat(t) == Numeric { tsize(t) == 1 || tsize(t) == 2 || tsize(t) == 4 || tsize(t) == 8 }
    else if tcat(t) == Enum { true }
    else if tcat(t) == Array { trank(tind(t)) < trank(t) && okc(tind(t)) }
    else if tcat(t) == Compound { okf(t, tfields(t).len() as int) }
    else { false }
}
pub open spec fn okf(t: TyRef, n: int) -> bool decreases trank(t), n
{ if n <= 0 || n > tfields(t).len() { n == 0 } else { okf(t, n - 1) && trank(tfields(t)[n - 1].m_type) < trank(t) && okc(tfields(t)[n - 1].m_type) } }
// for each byte of a converted value at o, the byte of the value it comes from
pub open spec fn smap(t: TyRef, o: int) -> Seq<int> decreases trank(t), 0nat, tfields(t).len() + 1
{
    if tcat(t) == Numeric || tcat(t) == Enum { rev(o, tsize(t) as nat) }
    else if tcat(t) == Array { if trank(tind(t)) < trank(t) { amap(tind(t), o, tdim(t) as int) } else { seq![] } }
    else if tcat(t) == Compound { let n = tfields(t).len() as int; fmap(t, o, n) + ident(o + lend(t, n), (tsize(t) - lend(t, n)) as nat) }
    else { seq![] }
}
pub open spec fn amap(e: TyRef, o: int, n: int) -> Seq<int> decreases trank(e), 1nat, n
{ if n <= 0 { seq![] } else { amap(e, o, n - 1) + smap(e, o + (n - 1) * tsize(e)) } }
pub open spec fn fmap(t: TyRef, o: int, n: int) -> Seq<int> decreases trank(t), 0nat, n
{
    if n <= 0 || n > tfields(t).len() || trank(tfields(t)[n - 1].m_type) >= trank(t) { seq![] }
    else { let f = tfields(t)[n - 1]; fmap(t, o, n - 1) + ident(o + lend(t, n - 1), (f.m_offset - lend(t, n - 1)) as nat) + smap(f.m_type, o + f.m_offset) }
}
pub proof fn lemma_slen(t: TyRef, o: int)
    requires wft(t), okc(t)
    ensures smap(t, o).len() == tsize(t)
    decreases trank(t), 0nat, tfields(t).len() + 1
{
    if tcat(t) == Array { lemma_alen(tind(t), o, tdim(t) as int); }
    else if tcat(t) == Compound { lemma_mlen(t, o, tfields(t).len() as int); }
}
pub proof fn lemma_alen(e: TyRef, o: int, n: int)
    requires wft(e), okc(e), n >= 0
    ensures amap(e, o, n).len() == n * tsize(e)
    decreases trank(e), 1nat, n
{ if n > 0 { lemma_alen(e, o, n - 1); lemma_slen(e, o + (n - 1) * tsize(e)); assert((n - 1) * tsize(e) + tsize(e) == n * tsize(e)) by (nonlinear_arith); } else { assert(0 * tsize(e) == 0) by (nonlinear_arith); } }
pub proof fn lemma_mlen(t: TyRef, o: int, n: int)
    requires wff(t, n), okf(t, n), n >= 0
    ensures fmap(t, o, n).len() == lend(t, n), lend(t, n) >= 0
    decreases trank(t), 0nat, n
{ if n > 0 { lemma_mlen(t, o, n - 1); lemma_slen(tfields(t)[n - 1].m_type, o + tfields(t)[n - 1].m_offset); } }
pub proof fn lemma_okf(t: TyRef, i: int, n: int)
    requires 0 <= i < n <= tfields(t).len()
    ensures okf(t, n) ==> okf(t, i + 1)
    decreases n
{ if i + 1 < n { lemma_okf(t, i, n - 1); } }
pub proof fn lemma_acat(e: TyRef, o: int, x: int, y: int)
    requires x >= 0, y >= 0, wft(e), okc(e)
    ensures amap(e, o, x + y) == amap(e, o, x) + amap(e, o + x * tsize(e), y)
    decreases y
{
    if y > 0 {
        lemma_acat(e, o, x, y - 1);
        assert(o + x * tsize(e) + (y - 1) * tsize(e) == o + (x + y - 1) * tsize(e)) by (nonlinear_arith);
        assert(amap(e, o, x) + amap(e, o + x * tsize(e), y) =~= amap(e, o, x) + amap(e, o + x * tsize(e), y - 1) + smap(e, o + (x + y - 1) * tsize(e)));
    } else { assert(amap(e, o, x) + amap(e, o + x * tsize(e), 0) =~= amap(e, o, x)); }
}
// arrays of arrays as one array
pub open spec fn ibase(t: TyRef) -> TyRef decreases trank(t) { if tcat(t) == Array && trank(tind(t)) < trank(t) { ibase(tind(t)) } else { t } }
pub open spec fn cnt(t: TyRef) -> int decreases trank(t) { if tcat(t) == Array && trank(tind(t)) < trank(t) { tdim(t) * cnt(tind(t)) } else { 1 } }
pub proof fn lemma_base(t: TyRef)
    requires wft(t), okc(t)
    ensures cnt(t) >= 0, wft(ibase(t)), okc(ibase(t)), tsize(t) == cnt(t) * tsize(ibase(t)), forall|o: int| #[trigger] smap(t, o) == amap(ibase(t), o, cnt(t))
    decreases trank(t)
{
    if tcat(t) == Array {
        let e = tind(t); let b = ibase(e); let k = cnt(e);
        lemma_base(e);
        assert(tdim(t) * k >= 0) by (nonlinear_arith) requires tdim(t) >= 0, k >= 0;
        assert(tdim(t) * (k * tsize(b)) == (tdim(t) * k) * tsize(b)) by (nonlinear_arith);
        assert forall|o: int| #[trigger] smap(t, o) == amap(b, o, cnt(t)) by { lemma_flat_array(e, o, tdim(t) as int); }
    } else {
        assert forall|o: int| #[trigger] smap(t, o) == amap(t, o, 1) by { assert(o + (1 - 1) * tsize(t) == o) by (nonlinear_arith); assert(amap(t, o, 0) =~= seq![]); assert(amap(t, o, 1) =~= smap(t, o)); }
    }
}
pub proof fn lemma_flat_array(e: TyRef, o: int, n: int)
    requires wft(e), okc(e), n >= 0, wft(ibase(e)), okc(ibase(e)), cnt(e) >= 0, tsize(e) == cnt(e) * tsize(ibase(e)), forall|o: int| #[trigger] smap(e, o) == amap(ibase(e), o, cnt(e))
    ensures amap(e, o, n) == amap(ibase(e), o, n * cnt(e))
    decreases n
{
    let b = ibase(e); let k = cnt(e);
    if n > 0 {
        lemma_flat_array(e, o, n - 1);
        assert((n - 1) * k >= 0) by (nonlinear_arith) requires n >= 1, k >= 0;
        lemma_acat(b, o, (n - 1) * k, k);
        assert((n - 1) * k + k == n * k) by (nonlinear_arith);
        assert(((n - 1) * k) * tsize(b) == (n - 1) * (k * tsize(b))) by (nonlinear_arith);
        assert(smap(e, o + (n - 1) * tsize(e)) == amap(b, o + (n - 1) * tsize(e), k));
    } else { assert(0 * k == 0) by (nonlinear_arith); }
}
// ---------------------------------------------------------------- code added to a description
pub open spec fn sk(a: Seq<usize>, m: int) -> bool { (a.len() > 0 ==> a.last() != ES_SKIP) && (a.len() >= 2 && a[a.len() - 2] == ES_SKIP ==> a.last() <= m) }
pub open spec fn kept(a: Seq<usize>, c: Seq<usize>) -> bool {
    a.len() <= c.len() && forall|k: int| 0 <= k < a.len() ==> #[trigger] c[k] == a[k] || (k == a.len() - 1 && a.len() >= 2 && a[k - 1] == ES_SKIP)
}
pub open spec fn opn(a: Seq<usize>, st: int) -> bool { open_at(a, st) && (a.len() >= 2 && a[a.len() - 2] == ES_SKIP ==> st <= a.len() - 2) }
pub open spec fn ad1(a: Seq<usize>, c: Seq<usize>, m: int, f: spec_fn(int) -> Seq<int>, st: int, o: int, d: int) -> bool {
    opn(a, st) ==> opn(c, st) && (o + srcs(a, st, o, d).len() == m + d ==> srcs(c, st, o, d) == srcs(a, st, o, d) + f(m + d))
}
pub open spec fn adds(a: Seq<usize>, c: Seq<usize>, m: int, f: spec_fn(int) -> Seq<int>) -> bool { kept(a, c) && forall|st: int, o: int, d: int| #[trigger] ad1(a, c, m, f, st, o, d) }
pub proof fn lemma_adds0(a: Seq<usize>, m: int, f: spec_fn(int) -> Seq<int>)
    requires forall|x: int| (#[trigger] f(x)).len() == 0
    ensures adds(a, a, m, f)
{ assert forall|st: int, o: int, d: int| #[trigger] ad1(a, a, m, f, st, o, d) by { assert(f(m + d).len() == 0); assert(srcs(a, st, o, d) + f(m + d) =~= srcs(a, st, o, d)); } }
pub proof fn lemma_adds_cat(a: Seq<usize>, b: Seq<usize>, c: Seq<usize>, m: int, k: int, f: spec_fn(int) -> Seq<int>, g: spec_fn(int) -> Seq<int>, h: spec_fn(int) -> Seq<int>)
    requires adds(a, b, m, f), adds(b, c, m + k, g), forall|x: int| (#[trigger] f(x)).len() == k, forall|x: int| #[trigger] h(x) == f(x) + g(x + k)
    ensures adds(a, c, m, h)
{
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] c[i] == a[i] || (i == a.len() - 1 && a.len() >= 2 && a[i - 1] == ES_SKIP) by {
        assert(b[i] == a[i] || (i == a.len() - 1 && a.len() >= 2 && a[i - 1] == ES_SKIP));
        assert(c[i] == b[i] || (i == b.len() - 1 && b.len() >= 2 && b[i - 1] == ES_SKIP));
        if i >= 1 { assert(b[i - 1] == a[i - 1]); }
    }
    assert forall|st: int, o: int, d: int| #[trigger] ad1(a, c, m, h, st, o, d) by {
        assert(ad1(a, b, m, f, st, o, d)); assert(ad1(b, c, m + k, g, st, o, d));
        if opn(a, st) && o + srcs(a, st, o, d).len() == m + d {
            assert(f(m + d).len() == k);
            assert(m + k + d == m + d + k);
            assert(h(m + d) == f(m + d) + g(m + d + k));
            assert(srcs(c, st, o, d) =~= srcs(a, st, o, d) + h(m + d));
        }
    }
}
pub proof fn lemma_adds_word(a: Seq<usize>, x: Seq<usize>, m: int, f: spec_fn(int) -> Seq<int>)
    requires ewf(a + x, a.len() as int), eend(a + x, a.len() as int) == a.len() + x.len(), forall|d: int| #[trigger] srcs(a + x, a.len() as int, m + d, d) == f(m + d), x.len() > 0, a.len() > 0 ==> a.last() != ES_SKIP
    ensures adds(a, a + x, m, f)
{
    assert forall|st: int, o: int, d: int| #[trigger] ad1(a, a + x, m, f, st, o, d) by {
        if opn(a, st) {
            lemma_append(a, x, st); lemma_eend(a, st);
            let u = srcs(a + x, a.len() as int, m + d, d);
            assert(u == f(m + d));
            assert(srcs(a + x, st, o, d) == srcs(a, st, o, d) + srcs(a + x, a.len() as int, o + srcs(a, st, o, d).len(), d));
            if x.len() == 1 && a.len() > 0 { assert((a + x)[a.len() - 1] == a.last()); }
        }
    }
}
pub open spec fn fid(n: int) -> spec_fn(int) -> Seq<int> { |x: int| ident(x, n as nat) }
pub open spec fn frev(n: int) -> spec_fn(int) -> Seq<int> { |x: int| rev(x, n as nat) }
pub open spec fn fty(t: TyRef) -> spec_fn(int) -> Seq<int> { |x: int| smap(t, x) }
pub open spec fn ffs(t: TyRef, n: int) -> spec_fn(int) -> Seq<int> { |x: int| fmap(t, x, n) }
pub proof fn lemma_skip_new(a: Seq<usize>, n: usize, m: int)
    requires n <= lim(), a.len() > 0 ==> a.last() != ES_SKIP
    ensures adds(a, a + seq![ES_SKIP, n], m, fid(n as int))
{
    let x = seq![ES_SKIP, n]; let c = a + x; let l = a.len() as int;
    assert(c[l] == ES_SKIP && c[l + 1] == n);
    assert(ewf(c, l + 2) && eend(c, l + 2) == l + 2);
    assert(ewf(c, l) && eend(c, l) == l + 2);
    assert forall|d: int| #[trigger] srcs(c, l, m + d, d) == fid(n as int)(m + d) by { assert(srcs(c, l + 2, m + d + n, d) =~= seq![]); assert(srcs(c, l, m + d, d) =~= ident(m + d, n as nat)); }
    lemma_adds_word(a, x, m, fid(n as int));
}
pub proof fn lemma_skip_more(a: Seq<usize>, c: Seq<usize>, n: int, m: int)
    requires 0 <= n, a.len() >= 2, a[a.len() - 2] == ES_SKIP, a.last() + n <= lim(), c == a.update(a.len() - 1, (a.last() + n) as usize), a.last() != ES_SKIP
    ensures adds(a, c, m, fid(n))
{
    assert forall|st: int, o: int, d: int| #[trigger] ad1(a, c, m, fid(n), st, o, d) by { if opn(a, st) { lemma_longer(a, c, n, st); assert(srcs(c, st, o, d) == srcs(a, st, o, d) + ident(o + srcs(a, st, o, d).len(), n as nat)); } }
}
//@fn es_skip name=skip file=typelib/endianness.cc class=CompileEndianSwapVisitor flat=m_output_index:&mut~usize,m_compiled:&mut~Vec<usize> dyn=CompileEndianSwapVisitor,TypeVisitor link=-:- vals=addr
//@spec
    requires 0 <= skip_size, sk(old(m_compiled)@, *old(m_output_index) as int), *old(m_output_index) + skip_size <= lim()
    ensures *final(m_output_index) == *old(m_output_index), adds(old(m_compiled)@, final(m_compiled)@, *old(m_output_index) as int, fid(skip_size as int)), sk(final(m_compiled)@, *old(m_output_index) + skip_size)
//@at entry
    proof { let n = skip_size as usize; if m_compiled@.len() >= 2 && m_compiled@[m_compiled@.len() - 2] == ES_SKIP { let c = m_compiled@.update(m_compiled@.len() - 1, (m_compiled@.last() + n) as usize); lemma_skip_more(m_compiled@, c, n as int, *m_output_index as int); } else { lemma_skip_new(m_compiled@, n, *m_output_index as int); } }
//@at end
    proof { if !(old(m_compiled)@.len() >= 2 && old(m_compiled)@[old(m_compiled)@.len() - 2] == ES_SKIP) { assert(m_compiled@ =~= old(m_compiled)@ + seq![ES_SKIP, skip_size as usize]); } }
//@end
pub open spec fn kpre(a: Seq<usize>, m: usize, t: TyRef) -> bool { wft(t) && small() && sk(a, m as int) && m + tsize(t) <= lim() }
pub open spec fn kpost(a: Seq<usize>, c: Seq<usize>, m: usize, t: TyRef, r: Result<bool, Ex>) -> bool {
    (r is Ok <==> okc(t)) && (r is Ok ==> adds(a, c, m as int, fty(t)) && sk(c, m + tsize(t)))
}
pub proof fn lemma_ident1(o: int, n: nat) requires n == 1 ensures ident(o, n) == rev(o, n) { assert(ident(o, n) =~= rev(o, n)); }
pub proof fn lemma_word(s: Seq<usize>, i: int)
    requires 0 <= i < s.len(), s[i] <= lim()
    ensures ewf(s, i) == ewf(s, i + 1), eend(s, i) == eend(s, i + 1), forall|o: int, d: int| #[trigger] srcs(s, i, o, d) == seq![s[i] + d] + srcs(s, i + 1, o + 1, d)
{}
pub proof fn lemma_stop(s: Seq<usize>, i: int)
    requires i == s.len()
    ensures ewf(s, i), eend(s, i) == i, forall|o: int, d: int| #[trigger] srcs(s, i, o, d) == Seq::<int>::empty()
{ assert forall|o: int, d: int| #[trigger] srcs(s, i, o, d) == Seq::<int>::empty() by { assert(srcs(s, i, o, d) =~= Seq::<int>::empty()); } }
pub proof fn lemma_op(a: Seq<usize>, w: usize, m: int, n: int)
    requires (w == ES_SWAP_4 && n == 4) || (w == ES_SWAP_8 && n == 8), a.len() > 0 ==> a.last() != ES_SKIP
    ensures adds(a, a.push(w), m, frev(n))
{
    let x = seq![w]; let c = a + x; let l = a.len() as int;
    assert(c =~= a.push(w)); assert(c[l] == w); lemma_stop(c, l + 1);
    assert forall|d: int| #[trigger] srcs(c, l, m + d, d) == frev(n)(m + d) by { assert(srcs(c, l + 1, m + d + n, d) == Seq::<int>::empty()); assert(srcs(c, l, m + d, d) =~= rev(m + d, n as nat)); }
    lemma_adds_word(a, x, m, frev(n));
}
pub open spec fn down(m: int, n: int) -> Seq<usize> { Seq::new(n as nat, |k: int| (m + n - 1 - k) as usize) }
pub proof fn lemma_down(a: Seq<usize>, x: Seq<usize>, m: int, n: int)
    requires 0 <= m, m + n <= lim(), 1 <= n, a.len() > 0 ==> a.last() != ES_SKIP, x == down(m, n)
    ensures adds(a, a + x, m, frev(n))
{
    let c = a + x; let l = a.len() as int;
    lemma_down1(c, l, m, n, n);
    assert forall|d: int| #[trigger] srcs(c, l, m + d, d) == frev(n)(m + d) by {
        assert(srcs(c, l, m + d, d) =~= Seq::new(n as nat, |k: int| m + n - 1 - k + d));
        assert(srcs(c, l, m + d, d) =~= rev(m + d, n as nat));
    }
    lemma_adds_word(a, x, m, frev(n));
}
pub proof fn lemma_down1(c: Seq<usize>, l: int, m: int, n: int, k: int)
    requires 0 <= m, m + n <= lim(), 0 <= k <= n, c.len() == l + n, l >= 0, forall|i: int| 0 <= i < n ==> #[trigger] c[l + i] == m + n - 1 - i
    ensures ewf(c, l + n - k), eend(c, l + n - k) == c.len(), forall|o: int, d: int| #[trigger] srcs(c, l + n - k, o, d) == Seq::new(k as nat, |i: int| m + k - 1 - i + d)
    decreases k
{
    let j = l + n - k;
    if k == 0 { lemma_stop(c, j); assert forall|o: int, d: int| #[trigger] srcs(c, j, o, d) == Seq::new(k as nat, |i: int| m + k - 1 - i + d) by { assert(srcs(c, j, o, d) =~= Seq::new(k as nat, |i: int| m + k - 1 - i + d)); } }
    else {
        lemma_down1(c, l, m, n, k - 1);
        assert(c[l + (n - k)] == m + k - 1);
        lemma_word(c, j);
        assert forall|o: int, d: int| #[trigger] srcs(c, j, o, d) == Seq::new(k as nat, |i: int| m + k - 1 - i + d) by {
            assert(srcs(c, j + 1, o + 1, d) == Seq::new((k - 1) as nat, |i: int| m + k - 2 - i + d));
            assert(srcs(c, j, o, d) =~= Seq::new(k as nat, |i: int| m + k - 1 - i + d));
        }
    }
}
pub proof fn lemma_same_map(a: Seq<usize>, c: Seq<usize>, m: int, f: spec_fn(int) -> Seq<int>, g: spec_fn(int) -> Seq<int>)
    requires adds(a, c, m, f), forall|x: int| #[trigger] f(x) == g(x)
    ensures adds(a, c, m, g)
{ assert forall|st: int, o: int, d: int| #[trigger] ad1(a, c, m, g, st, o, d) by { assert(ad1(a, c, m, f, st, o, d)); assert(f(m + d) == g(m + d)); } }
//@fn es_numeric name=visit_ types=const~Numeric file=typelib/endianness.cc class=CompileEndianSwapVisitor flat=m_output_index:&mut~usize,m_compiled:&mut~Vec<usize> dyn=CompileEndianSwapVisitor,TypeVisitor link=-:- vals=addr throws=yes
//@spec
    requires tcat(type_) == Numeric, kpre(old(m_compiled)@, *old(m_output_index), type_)
    ensures kpost(old(m_compiled)@, final(m_compiled)@, *old(m_output_index), type_, r)
    decreases trank(type_), 0nat
//@at entry
    let ghost a0 = m_compiled@; let ghost m0 = *m_output_index as int; let ghost n0 = tsize(type_) as int;
    proof {
        if n0 == 4 { lemma_op(a0, ES_SWAP_4, m0, 4); lemma_same_map(a0, a0.push(ES_SWAP_4), m0, frev(4), fty(type_)); }
        if n0 == 8 { lemma_op(a0, ES_SWAP_8, m0, 8); lemma_same_map(a0, a0.push(ES_SWAP_8), m0, frev(8), fty(type_)); }
        if n0 == 2 { let x = down(m0, 2); lemma_down(a0, x, m0, 2); assert(a0 + x =~= a0.push((m0 + 1) as usize).push(m0 as usize)); lemma_same_map(a0, a0 + x, m0, frev(2), fty(type_)); }
    }
//@at call:es_skip#1.after
    proof { assert forall|x: int| #[trigger] fid(1)(x) == fty(type_)(x) by { lemma_ident1(x, 1); } lemma_same_map(a0, m_compiled@, m0, fid(1), fty(type_)); }
//@end
//@fn es_enum name=visit_ types=const~Enum file=typelib/endianness.cc class=CompileEndianSwapVisitor flat=m_output_index:&mut~usize,m_compiled:&mut~Vec<usize> dyn=CompileEndianSwapVisitor,TypeVisitor link=-:- vals=addr throws=yes
//@spec
    requires tcat(type_) == Enum, kpre(old(m_compiled)@, *old(m_output_index), type_)
    ensures kpost(old(m_compiled)@, final(m_compiled)@, *old(m_output_index), type_, r)
    decreases trank(type_), 0nat
//@at entry
    let ghost a0 = m_compiled@; let ghost m0 = *m_output_index as int; let ghost x0 = down(m0, 4);
    proof { lemma_down(a0, x0, m0, 4); lemma_same_map(a0, a0 + x0, m0, frev(4), fty(type_)); assert(a0 + x0.take(0) =~= a0); }
//@loop 1
    invariant -1 <= i <= 3, m_compiled@ == a0 + x0.take(3 - i), *m_output_index == m0, m0 + 4 <= lim(), x0 == down(m0, 4)
    decreases i + 1
//@at loop1.end
    proof { assert(m_compiled@ =~= a0 + x0.take(3 - i)); }
//@at loop1.after
    proof { assert(x0.take(4) =~= x0); }
//@end
//@fn es_opaque name=visit_ types=const~OpaqueType file=typelib/endianness.cc class=CompileEndianSwapVisitor flat=m_output_index:&mut~usize,m_compiled:&mut~Vec<usize> dyn=CompileEndianSwapVisitor,TypeVisitor link=-:- vals=addr throws=yes
//@spec
    requires tcat(type_) == Opaque, kpre(old(m_compiled)@, *old(m_output_index), type_)
    ensures kpost(old(m_compiled)@, final(m_compiled)@, *old(m_output_index), type_, r)
    decreases trank(type_), 0nat
//@end
//@fn es_pointer name=visit_ types=const~Pointer file=typelib/endianness.cc class=CompileEndianSwapVisitor flat=m_output_index:&mut~usize,m_compiled:&mut~Vec<usize> dyn=CompileEndianSwapVisitor,TypeVisitor link=-:- vals=addr throws=yes
//@spec
    requires tcat(type_) == Pointer, kpre(old(m_compiled)@, *old(m_output_index), type_)
    ensures kpost(old(m_compiled)@, final(m_compiled)@, *old(m_output_index), type_, r)
    decreases trank(type_), 0nat
//@end
//@fn es_container name=visit_ types=const~Container file=typelib/endianness.cc class=CompileEndianSwapVisitor flat=m_output_index:&mut~usize,m_compiled:&mut~Vec<usize> dyn=CompileEndianSwapVisitor,TypeVisitor link=-:- vals=addr throws=yes
//@spec
    requires tcat(type_) == Container, kpre(old(m_compiled)@, *old(m_output_index), type_)
    ensures kpost(old(m_compiled)@, final(m_compiled)@, *old(m_output_index), type_, r)
    decreases trank(type_), 0nat
//@end
//@fn es_null name=visit_ types=const~NullType file=typelib/typevisitor.cc class=TypeVisitor flat=m_output_index:&mut~usize,m_compiled:&mut~Vec<usize> dyn=CompileEndianSwapVisitor,TypeVisitor link=-:- vals=addr throws=yes
//@spec
    ensures r is Err
    decreases trank(type_), 0nat
//@end
//@fn es_dispatch name=dispatch file=typelib/typevisitor.cc class=TypeVisitor flat=m_output_index:&mut~usize,m_compiled:&mut~Vec<usize> dyn=CompileEndianSwapVisitor,TypeVisitor link=-:- vals=addr throws=yes
//@spec
    requires kpre(old(m_compiled)@, *old(m_output_index), type_)
    ensures kpost(old(m_compiled)@, final(m_compiled)@, *old(m_output_index), type_, r)
    decreases trank(type_), 2nat
//@end
//@fn es_tapply name=apply file=typelib/typevisitor.cc class=TypeVisitor flat=m_output_index:&mut~usize,m_compiled:&mut~Vec<usize> dyn=CompileEndianSwapVisitor,TypeVisitor link=-:- vals=addr throws=yes
//@spec
    requires kpre(old(m_compiled)@, *old(m_output_index), type_)
    ensures r is Ok <==> okc(type_), r is Ok ==> adds(old(m_compiled)@, final(m_compiled)@, *old(m_output_index) as int, fty(type_)) && sk(final(m_compiled)@, *old(m_output_index) + tsize(type_))
    decreases trank(type_), 3nat
//@end
//@fn es_apply name=apply file=typelib/endianness.cc class=CompileEndianSwapVisitor flat=m_output_index:&mut~usize,m_compiled:&mut~Vec<usize> dyn=CompileEndianSwapVisitor,TypeVisitor link=-:- vals=addr throws=yes
//@spec
    requires wft(type_), small()
    ensures r is Ok <==> okc(type_), r is Ok ==> adds(seq![], final(m_compiled)@, 0, fty(type_)) && sk(final(m_compiled)@, tsize(type_) as int)
    decreases trank(type_), 4nat
//@end
//@fn es_tv_array name=visit_ types=const~Array file=typelib/typevisitor.cc class=TypeVisitor flat=m_output_index:&mut~usize,m_compiled:&mut~Vec<usize> dyn=CompileEndianSwapVisitor,TypeVisitor link=-:- vals=addr throws=yes
//@spec
    requires tcat(type_) == Array, trank(tind(type_)) < trank(type_), kpre(old(m_compiled)@, *old(m_output_index), tind(type_))
    ensures kpost(old(m_compiled)@, final(m_compiled)@, *old(m_output_index), tind(type_), r)
    decreases trank(tind(type_)), 3nat
//@end
// an array of at least one byte: one instruction
pub open spec fn arr_skip(a: Seq<usize>, c: Seq<usize>, t: TyRef) -> bool { c == a + seq![ES_SKIP, tsize(t)] && forall|o: int| #[trigger] smap(t, o) == ident(o, tsize(t) as nat) }
pub open spec fn arr_code(a: Seq<usize>, c: Seq<usize>, m: int, t: TyRef) -> bool {
    let l = a.len() as int;
    c.len() > l + 3 && c[l] == ES_ARRAY && c[l + 1] == cnt(t) && c[l + 2] == tsize(ibase(t)) && ewf(c, l + 3) && eend(c, l + 3) == c.len() - 1 && c.last() == ES_END
        && forall|d: int| #[trigger] srcs(c, l + 3, m + d, d) == smap(ibase(t), m + d)
}
pub open spec fn apost(a: Seq<usize>, c: Seq<usize>, m: int, t: TyRef) -> bool {
    a.len() + 1 < c.len() && (forall|k: int| 0 <= k < a.len() ==> #[trigger] c[k] == a[k]) && (arr_skip(a, c, t) || arr_code(a, c, m, t))
}
pub proof fn lemma_srep(c: Seq<usize>, i: int, o: int, d: int, m: int, b: TyRef, n: nat)
    requires o == m + d, wft(b), okc(b), forall|e: int| #[trigger] srcs(c, i, m + e, e) == smap(b, m + e)
    ensures srep(c, i, o, d, tsize(b) as int, n) == amap(b, o, n as int)
    decreases n
{
    if n > 0 {
        let es = tsize(b) as int;
        lemma_srep(c, i, o, d, m, b, (n - 1) as nat);
        lemma_alen(b, o, n - 1);
        let r = srep(c, i, o, d, es, (n - 1) as nat);
        assert(es * (n - 1) == (n - 1) * es) by (nonlinear_arith);
        let e = d + es * (n - 1);
        assert(o + r.len() == m + e);
        assert(srcs(c, i, m + e, e) == smap(b, m + e));
        assert(srep(c, i, o, d, es, n) == r + srcs(c, i, o + r.len(), e));
        assert(amap(b, o, n as int) == amap(b, o, n - 1) + smap(b, o + (n - 1) * es));
    } else { assert(amap(b, o, 0) =~= seq![]); }
}
pub proof fn lemma_apost(a: Seq<usize>, c: Seq<usize>, m: int, t: TyRef)
    requires tcat(t) == Array, wft(t), small(), okc(t), tsize(t) > 0, sk(a, m), m >= 0, apost(a, c, m, t)
    ensures adds(a, c, m, fty(t)), sk(c, m + tsize(t))
{ if arr_skip(a, c, t) { lemma_apost_skip(a, c, m, t); } else { lemma_apost_code(a, c, m, t); } }
pub proof fn lemma_apost_skip(a: Seq<usize>, c: Seq<usize>, m: int, t: TyRef)
    requires small(), sk(a, m), m >= 0, arr_skip(a, c, t)
    ensures adds(a, c, m, fty(t)), sk(c, m + tsize(t))
{
    let n = tsize(t);
    assert(n <= lim()) by { let q = tcat(t); }
    lemma_skip_new(a, n, m);
    assert forall|x: int| #[trigger] fid(n as int)(x) == fty(t)(x) by { assert(smap(t, x) == ident(x, n as nat)); }
    lemma_same_map(a, c, m, fid(n as int), fty(t));
}
pub proof fn lemma_apost_code(a: Seq<usize>, c: Seq<usize>, m: int, t: TyRef)
    requires tcat(t) == Array, wft(t), small(), okc(t), tsize(t) > 0, sk(a, m), m >= 0, apost(a, c, m, t), arr_code(a, c, m, t)
    ensures adds(a, c, m, fty(t)), sk(c, m + tsize(t))
{
    let l = a.len() as int; let n = tsize(t);
    lemma_base(t);
    let b = ibase(t); let k = cnt(t);
    assert(k >= 1 && tsize(b) >= 1 && k <= n && tsize(b) <= n) by (nonlinear_arith) requires n == k * tsize(b), n > 0, k >= 0, tsize(b) >= 0;
    assert(n <= lim()) by { let q = tcat(t); }
    let x = c.subrange(l, c.len() as int);
    assert(c =~= a + x);
    lemma_stop(c, c.len() as int);
    lemma_eln(c, l + 3); lemma_slen(b, m + 0); assert(srcs(c, l + 3, m + 0, 0) == smap(b, m + 0));
    assert(ewf(c, l)); assert(eend(c, l) == c.len());
    assert forall|d: int| #[trigger] srcs(c, l, m + d, d) == fty(t)(m + d) by { lemma_apost_map(c, l, m, d, t); }
    lemma_adds_word(a, x, m, fty(t));
    lemma_inblock(c, l + 3);
    if eend(c, l + 3) == l + 3 { assert(c[l + 2] == c[c.len() - 2]); }
}
pub proof fn lemma_apost_map(c: Seq<usize>, l: int, m: int, d: int, t: TyRef)
    requires wft(t), okc(t), l >= 0, c.len() > l + 3, c[l] == ES_ARRAY, c[l + 1] == cnt(t), c[l + 2] == tsize(ibase(t)), eend(c, l + 3) == c.len() - 1, forall|d: int| #[trigger] srcs(c, l + 3, m + d, d) == smap(ibase(t), m + d)
    ensures srcs(c, l, m + d, d) == smap(t, m + d)
{
    let b = ibase(t); let k = cnt(t);
    lemma_base(t);
    lemma_stop(c, c.len() as int);
    lemma_srep(c, l + 3, m + d, d, m, b, k as nat);
    let r = srep(c, l + 3, m + d, d, tsize(b) as int, k as nat);
    assert(srcs(c, l, m + d, d) == r + srcs(c, c.len() as int, m + d + r.len(), d));
    assert(srcs(c, l, m + d, d) =~= r);
    assert(smap(t, m + d) == amap(b, m + d, k));
}
// the code of the elements is written at b = a + [array, dimension, size of an element]
pub proof fn lemma_elements(a: Seq<usize>, c: Seq<usize>, m: int, t: TyRef)
    requires tcat(t) == Array, wft(t), small(), okc(t), tsize(t) > 0, sk(a, m), m >= 0, m + tsize(t) <= lim(), tcat(tind(t)) != Array,
        adds(a + seq![ES_ARRAY, tdim(t), tsize(tind(t))], c, m, fty(tind(t)))
    ensures c.len() >= a.len() + 3, tdim(t) <= lim(), tsize(tind(t)) <= lim(), kept(a + seq![ES_ARRAY, tdim(t), tsize(tind(t))], c),
        forall|k: int| 0 <= k < a.len() ==> #[trigger] c[k] == a[k],
        !(c.len() == a.len() + 5 && c[a.len() as int + 3] == ES_SKIP) ==> apost(a, c.push(ES_END), m, t),
        c.len() == a.len() + 5 && c[a.len() as int + 3] == ES_SKIP ==> c[a.len() as int + 4] == tsize(tind(t)) && c[a.len() as int + 4] * tdim(t) == tsize(t) && apost(a, a + seq![ES_SKIP, tsize(t)], m, t)
{
    let e = tind(t); let n = tdim(t); let es = tsize(e); let l = a.len() as int; let i = l + 3;
    let b = a + seq![ES_ARRAY, n, es];
    assert(n >= 1 && es >= 1 && n <= tsize(t) && es <= tsize(t)) by (nonlinear_arith) requires tsize(t) == n * es, tsize(t) > 0, n >= 0, es >= 0;
    assert(n * es == es * n) by (nonlinear_arith);
    assert(b[l] == ES_ARRAY && b[l + 1] == n && b[l + 2] == es);
    lemma_stop(b, i);
    assert(opn(b, i));
    assert(ibase(t) == ibase(e) && ibase(e) == e);
    assert(cnt(e) == 1); assert(cnt(t) == n * cnt(e)); assert(n * 1 == n) by (nonlinear_arith);
    assert forall|k: int| 0 <= k < b.len() implies #[trigger] c[k] == b[k] by { if k == b.len() - 1 { assert(b[k - 1] == n); } }
    assert forall|k: int| 0 <= k < a.len() implies #[trigger] c[k] == a[k] by { assert(c[k] == b[k]); assert(b[k] == a[k]); }
    assert(ad1(b, c, m, fty(e), i, m, 0));
    assert(open_at(c, i));
    assert forall|d: int| #[trigger] srcs(c, i, m + d, d) == smap(e, m + d) by { assert(ad1(b, c, m, fty(e), i, m + d, d)); assert(srcs(b, i, m + d, d) == Seq::<int>::empty()); assert(srcs(c, i, m + d, d) =~= smap(e, m + d)); }
    lemma_base(t);
    assert(c[l] == b[l] && c[l + 1] == b[l + 1] && c[l + 2] == b[l + 2]);
    if c.len() == l + 5 && c[i] == ES_SKIP {
        assert(ewf(c, i));
        assert forall|o: int| ident(o, c[i + 1] as nat) == #[trigger] smap(e, o) by {
            let d = o - m;
            assert(srcs(c, i, m + d, d) == smap(e, m + d));
            lemma_stop(c, i + 2);
            assert(srcs(c, i + 2, m + d + c[i + 1], d) == Seq::<int>::empty());
            assert(srcs(c, i, m + d, d) =~= ident(o, c[i + 1] as nat));
        }
        lemma_slen(e, 0);
        assert(smap(e, 0) == ident(0, c[i + 1] as nat));
        assert(c[i + 1] == es);
        let c2 = a + seq![ES_SKIP, tsize(t)];
        assert forall|o: int| #[trigger] smap(t, o) == ident(o, tsize(t) as nat) by { lemma_ident_array(e, o, n as int); }
        assert forall|k: int| 0 <= k < a.len() implies #[trigger] c2[k] == a[k] by {}
        assert(arr_skip(a, c2, t));
    } else {
        let c2 = c.push(ES_END); let x = seq![ES_END];
        assert(c2 =~= c + x);
        lemma_append(c, x, i);
        assert(c2[c.len() as int] == ES_END);
        assert(ewf(c2, c.len() as int) && eend(c2, c.len() as int) == c.len());
        assert forall|d: int| #[trigger] srcs(c2, i, m + d, d) == smap(e, m + d) by {
            assert(srcs(c, i, m + d, d) == smap(e, m + d));
            assert(srcs(c2, c.len() as int, m + d + srcs(c, i, m + d, d).len(), d) =~= Seq::<int>::empty());
            assert(srcs(c2, i, m + d, d) =~= smap(e, m + d));
        }
        assert(c2[l] == c[l] && c2[l + 1] == c[l + 1] && c2[l + 2] == c[l + 2]);
        assert forall|k: int| 0 <= k < a.len() implies #[trigger] c2[k] == a[k] by { assert(c2[k] == c[k]); assert(c[k] == b[k]); assert(b[k] == a[k]); }
        assert(arr_code(a, c2, m, t));
    }
}
pub proof fn lemma_ident_array(e: TyRef, o: int, n: int)
    requires n >= 0, forall|o: int| ident(o, tsize(e) as nat) == #[trigger] smap(e, o)
    ensures amap(e, o, n) == ident(o, (n * tsize(e)) as nat), n * tsize(e) >= 0
    decreases n
{
    let s = tsize(e);
    if n > 0 {
        lemma_ident_array(e, o, n - 1);
        assert((n - 1) * s + s == n * s && (n - 1) * s >= 0) by (nonlinear_arith) requires n >= 1, s >= 0;
        assert(smap(e, o + (n - 1) * s) == ident(o + (n - 1) * s, s as nat));
        assert(amap(e, o, n) =~= ident(o, (n * s) as nat));
    } else { assert(0 * s == 0) by (nonlinear_arith); assert(amap(e, o, 0) =~= ident(o, 0)); }
}
// the count of an inner array becomes the count of both
pub proof fn lemma_inner(a: Seq<usize>, c: Seq<usize>, m: int, t: TyRef)
    requires tcat(t) == Array, tcat(tind(t)) == Array, wft(t), small(), okc(t), tsize(t) > 0, sk(a, m), m >= 0, m + tsize(t) <= lim(), apost(a, c, m, tind(t))
    ensures c[a.len() as int + 1] * tdim(t) <= usize::MAX, apost(a, c.update(a.len() as int + 1, (c[a.len() as int + 1] * tdim(t)) as usize), m, t)
{
    let e = tind(t); let n = tdim(t); let l = a.len() as int; let b = ibase(e); let k = cnt(e);
    lemma_base(e); lemma_base(t);
    assert(ibase(t) == b && cnt(t) == n * k);
    assert(n * k == k * n) by (nonlinear_arith);
    if arr_skip(a, c, e) {
        assert(c[l + 1] == tsize(e));
        assert(n * tsize(e) == tsize(e) * n) by (nonlinear_arith);
        let c2 = c.update(l + 1, tsize(t));
        assert(c2 =~= a + seq![ES_SKIP, tsize(t)]);
        assert forall|o: int| #[trigger] smap(t, o) == ident(o, tsize(t) as nat) by { assert forall|q: int| ident(q, tsize(e) as nat) == #[trigger] smap(e, q) by {} lemma_ident_array(e, o, n as int); }
        assert(arr_skip(a, c2, t));
    } else {
        assert(cnt(t) <= tsize(t)) by (nonlinear_arith) requires tsize(t) == cnt(t) * tsize(b), tsize(t) > 0, cnt(t) >= 0, tsize(b) >= 0;
        let c2 = c.update(l + 1, (k * n) as usize);
        lemma_local(c, c2, l + 3);
        assert(c2.last() == c.last());
        assert forall|d: int| #[trigger] srcs(c2, l + 3, m + d, d) == smap(b, m + d) by { assert(srcs(c, l + 3, m + d, d) == smap(b, m + d)); }
        assert(arr_code(a, c2, m, t));
    }
}
//@fn es_array name=visit_ types=const~Array file=typelib/endianness.cc class=CompileEndianSwapVisitor flat=m_output_index:&mut~usize,m_compiled:&mut~Vec<usize> dyn=CompileEndianSwapVisitor,TypeVisitor link=-:- vals=addr wrap=all throws=yes
//@spec
    requires tcat(type_) == Array, kpre(old(m_compiled)@, *old(m_output_index), type_)
    ensures kpost(old(m_compiled)@, final(m_compiled)@, *old(m_output_index), type_, r), r is Ok && tsize(type_) > 0 ==> apost(old(m_compiled)@, final(m_compiled)@, *old(m_output_index) as int, type_)
    decreases trank(type_), 0nat
//@at entry
    let ghost a0 = m_compiled@; let ghost m0 = *m_output_index as int; let ghost e0 = tind(type_);
    proof {
        if tsize(type_) > 0 { assert(tsize(e0) <= tsize(type_) && tdim(type_) >= 1 && tsize(e0) >= 1 && tdim(type_) <= tsize(type_)) by (nonlinear_arith) requires tsize(type_) == tdim(type_) * tsize(e0), tsize(type_) > 0, tdim(type_) >= 0, tsize(e0) >= 0; }
        else if okc(type_) { assert forall|x: int| (#[trigger] fty(type_)(x)).len() == 0 by { lemma_slen(type_, x); } lemma_adds0(a0, m0, fty(type_)); }
    }
//@at call:es_array#1.after
    let ghost c1 = m_compiled@;
    proof { assert(m_compiled.len() == m_compiled@.len()); lemma_inner(a0, m_compiled@, m0, type_); lemma_apost(a0, m_compiled@.update(a0.len() as int + 1, (m_compiled@[a0.len() as int + 1] * tdim(type_)) as usize), m0, type_); }
//@at call:es_tv_array#1.before
    assert(m_compiled@ =~= a0 + seq![ES_ARRAY, tdim(type_), tsize(e0)]);
//@at call:es_tv_array#1.after
    let ghost c0 = m_compiled@;
    proof { lemma_elements(a0, c0, m0, type_); }
//@at return#2
    proof {
        let k = a0.len() as int + 1; let v = c1[k]; let n = tdim(type_);
        assert(prod(v, n) <= usize::MAX); assert(current_size + 1 == k);
        assert(m_compiled@.len() == c1.len());
        assert(forall|j: int| 0 <= j < c1.len() && j != k ==> m_compiled@[j] == c1[j]);
        assert(m_compiled@[k] == prod(v, n)); assert(m_compiled@ =~= c1.update(k, (v * n) as usize));
    }
//@at return#3
    proof {
        if c0.len() == a0.len() + 5 && c0[a0.len() as int + 3] == ES_SKIP { assert(m_compiled@ =~= a0 + seq![ES_SKIP, tsize(type_)]); }
        lemma_apost(a0, m_compiled@, m0, type_);
    }
//@end
//@fn es_compound name=visit_ types=const~Compound file=typelib/endianness.cc class=CompileEndianSwapVisitor flat=m_output_index:&mut~usize,m_compiled:&mut~Vec<usize> dyn=CompileEndianSwapVisitor,TypeVisitor link=-:- vals=addr throws=yes
//@spec
    requires tcat(type_) == Compound, kpre(old(m_compiled)@, *old(m_output_index), type_)
    ensures kpost(old(m_compiled)@, final(m_compiled)@, *old(m_output_index), type_, r)
    decreases trank(type_), 0nat
//@at entry
    let ghost a0 = m_compiled@; let ghost m0 = *m_output_index as int; let ghost nf = tfields(type_).len() as int;
    let ghost mut c3 = a0; let ghost k3 = lend(type_, nf); let ghost g3 = tsize(type_) - k3;
    proof { lemma_wff(type_, nf, nf); assert forall|x: int| (#[trigger] ffs(type_, 0)(x)).len() == 0 by { } lemma_adds0(a0, m0, ffs(type_, 0)); }
//@loop 1
    invariant *it.v == tfieldlist(type_), end.v == it.v, end.i == it.v@.len(), it.i <= it.v@.len(), wft(type_), small(), tcat(type_) == Compound, m0 + tsize(type_) <= lim(), base_index == m0, nf == tfields(type_).len(),
        *m_output_index == m0 + lend(type_, it.i as int), okf(type_, it.i as int), adds(a0, m_compiled@, m0, ffs(type_, it.i as int)), sk(m_compiled@, *m_output_index as int)
    decreases it.v@.len() - it.i
//@at loop1.begin
    let ghost c1 = m_compiled@; let ghost i1 = it.i as int; let ghost k1 = lend(type_, i1); let ghost f1 = tfields(type_)[i1]; let ghost gap = f1.m_offset - k1;
    proof {
        lemma_wff(type_, i1, nf); lemma_wff(type_, i1 + 1, nf); if okc(type_) { lemma_okf(type_, i1, nf); }
        lemma_adds0(c1, m0 + k1, fid(0));
        assert forall|x: int| (#[trigger] ffs(type_, i1)(x)).len() == k1 by { lemma_mlen(type_, x, i1); }
    }
    let ghost g1 = |x: int| ffs(type_, i1)(x) + fid(gap)(x + k1);
//@at call:es_dispatch#1.before
    let ghost c2 = m_compiled@;
    proof {
        if gap == 0 { assert(fid(gap) == fid(0)); }
        lemma_adds_cat(a0, c1, c2, m0, k1, ffs(type_, i1), fid(gap), g1);
        assert forall|x: int| (#[trigger] g1(x)).len() == f1.m_offset by { assert(ffs(type_, i1)(x).len() == k1); }
    }
//@at call:es_dispatch#1.after
    proof {
        let f = ffs(type_, i1 + 1);
        assert forall|x: int| #[trigger] f(x) == g1(x) + fty(f1.m_type)(x + f1.m_offset) by { }
        lemma_adds_cat(a0, c2, m_compiled@, m0, f1.m_offset as int, g1, fty(f1.m_type), f);
    }
//@at loop1.after
    proof { c3 = m_compiled@; assert(it.i == nf); assert(okf(type_, nf)); assert forall|x: int| (#[trigger] ffs(type_, nf)(x)).len() == k3 by { lemma_mlen(type_, x, nf); } lemma_adds0(c3, m0 + k3, fid(0)); }
//@at return#1
    proof {
        if g3 == 0 { assert(fid(g3) == fid(0)); }
        assert forall|x: int| #[trigger] fty(type_)(x) == ffs(type_, nf)(x) + fid(g3)(x + k3) by { }
        lemma_adds_cat(a0, c3, m_compiled@, m0, k3, ffs(type_, nf), fid(g3), fty(type_));
    }
//@end
