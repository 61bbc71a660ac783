//@include mem.rs
// The meaning of an initialisation program: what happens to each byte of the value.
pub enum ICell { Set(u8), Keep, New(usize), NTail }
pub open spec fn isets(s: Seq<usize>) -> Seq<ICell> { Seq::new(s.len(), |i: int| ICell::Set((s[i] % 256) as u8)) }
pub open spec fn ikeeps(n: nat) -> Seq<ICell> { Seq::new(n, |i: int| ICell::Keep) }
pub open spec fn icont(p: usize) -> Seq<ICell> { seq![ICell::New(p)] + Seq::new((csize(p) - 1) as nat, |i: int| ICell::NTail) }
pub open spec fn irep(b: Seq<ICell>, n: nat) -> Seq<ICell> decreases n { if n == 0 { seq![] } else { irep(b, (n - 1) as nat) + b } }
pub open spec fn ifits(c: Seq<ICell>, e: int) -> Option<(Seq<ICell>, int)> { if c.len() <= usize::MAX { Some((c, e)) } else { None } }
pub open spec fn iblk(s: Seq<usize>, i: int) -> Option<(Seq<ICell>, int)>
    decreases s.len() - i
{
    if i < 0 || i > s.len() { None }
    else if i == s.len() || s[i] == FLAG_INIT_END { Some((seq![], i)) }
    else if i + 1 >= s.len() { None }
    else if s[i] == FLAG_INIT {
        if s[i + 1] == 0 || i + 2 + s[i + 1] > s.len() { None } else {
            match iblk(s, i + 2 + s[i + 1]) { Some((c, e)) => ifits(isets(s.subrange(i + 2, i + 2 + s[i + 1])) + c, e), None => None } }
    } else if s[i] == FLAG_INIT_SKIP {
        match iblk(s, i + 2) { Some((c, e)) => ifits(ikeeps(s[i + 1] as nat) + c, e), None => None }
    } else if s[i] == FLAG_INIT_CONTAINER {
        if !is_cont(s[i + 1]) { None } else { match iblk(s, i + 2) { Some((c, e)) => ifits(icont(s[i + 1]) + c, e), None => None } }
    } else if s[i] == FLAG_INIT_REPEAT {
        match iblk(s, i + 2) {
            Some((b, e1)) => if i + 2 <= e1 < s.len() {
                match iblk(s, e1 + 1) { Some((c, e)) => ifits(irep(b, s[i + 1] as nat) + c, e), None => None }
            } else { None },
            None => None,
        }
    } else { None }
}
pub open spec fn ibe(s: Seq<usize>, i: int) -> int { iblk(s, i)->Some_0.1 }
pub open spec fn ibc(s: Seq<usize>, i: int) -> Seq<ICell> { iblk(s, i)->Some_0.0 }
pub proof fn lemma_iblk_end(s: Seq<usize>, i: int)
    requires iblk(s, i) is Some
    ensures i <= ibe(s, i) <= s.len(), ibe(s, i) < s.len() ==> s[ibe(s, i)] == FLAG_INIT_END, ibc(s, i).len() <= usize::MAX
    decreases s.len() - i
{
    if i == s.len() || s[i] == FLAG_INIT_END {}
    else {
        if s[i] == FLAG_INIT { lemma_iblk_end(s, i + 2 + s[i + 1]); }
        else if s[i] == FLAG_INIT_SKIP || s[i] == FLAG_INIT_CONTAINER { lemma_iblk_end(s, i + 2); }
        else { lemma_iblk_end(s, i + 2); let e1 = ibe(s, i + 2); lemma_iblk_end(s, e1 + 1); }
    }
}
// skipping blocks of init programs
pub open spec fn isb(s: Seq<usize>, i: int, nest: nat) -> int
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { s.len() as int }
    else if s[i] == FLAG_INIT_END { if nest == 0 { i } else { isb(s, i + 1, (nest - 1) as nat) } }
    else if i + 1 >= s.len() { s.len() as int }
    else if s[i] == FLAG_INIT_REPEAT { isb(s, i + 2, nest + 1) }
    else if s[i] == FLAG_INIT { if i + 2 + s[i + 1] > s.len() { s.len() as int } else { isb(s, i + 2 + s[i + 1], nest) } }
    else { isb(s, i + 2, nest) }
}
pub proof fn lemma_isb_blk(s: Seq<usize>, i: int, n: nat)
    requires iblk(s, i) is Some
    ensures ibe(s, i) < s.len() ==> isb(s, i, n) == isb(s, ibe(s, i), n), n == 0 ==> isb(s, i, n) == ibe(s, i)
    decreases s.len() - i
{
    lemma_iblk_end(s, i);
    if i == s.len() || s[i] == FLAG_INIT_END {}
    else if s[i] == FLAG_INIT { lemma_isb_blk(s, i + 2 + s[i + 1], n); }
    else if s[i] == FLAG_INIT_SKIP || s[i] == FLAG_INIT_CONTAINER { lemma_isb_blk(s, i + 2, n); }
    else {
        lemma_iblk_end(s, i + 2);
        let e1 = ibe(s, i + 2);
        lemma_isb_blk(s, i + 2, n + 1);
        assert(isb(s, e1, n + 1) == isb(s, e1 + 1, n));
        lemma_isb_blk(s, e1 + 1, n);
    }
}
pub proof fn lemma_irep_sub(b: Seq<ICell>, i: nat, n: nat)
    requires i < n
    ensures irep(b, i).len() + b.len() <= irep(b, n).len(), irep(b, i + 1) == irep(b, i) + b,
        forall|j: int| 0 <= j < b.len() ==> #[trigger] irep(b, n)[irep(b, i).len() + j] == b[j]
    decreases n
{
    if i + 1 < n { lemma_irep_sub(b, i, (n - 1) as nat);
        assert forall|j: int| 0 <= j < b.len() implies #[trigger] irep(b, n)[irep(b, i).len() + j] == b[j] by {
            assert(irep(b, (n - 1) as nat)[irep(b, i).len() + j] == b[j]);
        }
    }
}
pub open spec fn isame(cc: Seq<ICell>, d: int, h: Seq<ICell>) -> bool {
    d + h.len() <= cc.len() && forall|j: int| 0 <= j < h.len() ==> #[trigger] cc[d + j] == h[j]
}
pub open spec fn iat(s: Seq<usize>, i: int, cc: Seq<ICell>, d: int, e0: int) -> bool {
    0 <= i <= s.len() && iblk(s, i) is Some && ibe(s, i) == e0 && 0 <= d <= cc.len() && cc.skip(d) == ibc(s, i) && cc.len() <= usize::MAX
        && i <= e0 <= s.len() && (e0 < s.len() ==> s[e0] == FLAG_INIT_END)
}
pub proof fn lemma_istep(c: Seq<ICell>, d: int, head: Seq<ICell>, tail: Seq<ICell>)
    requires 0 <= d <= c.len(), c.skip(d) == head + tail
    ensures isame(c, d, head), c.skip(d + head.len()) == tail
{
    assert(c.skip(d).len() == head.len() + tail.len());
    assert(c.skip(d + head.len()) =~= tail) by {
        assert forall|j: int| 0 <= j < tail.len() implies c.skip(d + head.len())[j] == tail[j] by { assert(c.skip(d)[head.len() + j] == tail[j]); }
    }
    assert forall|j: int| 0 <= j < head.len() implies #[trigger] c[d + j] == head[j] by { assert(c.skip(d)[j] == head[j]); }
}
pub proof fn lemma_iat_start(s: Seq<usize>, i: int)
    requires iblk(s, i) is Some
    ensures iat(s, i, ibc(s, i), 0, ibe(s, i))
{ lemma_iblk_end(s, i); assert(ibc(s, i).skip(0) =~= ibc(s, i)); }
pub proof fn lemma_iat_end(s: Seq<usize>, i: int, cc: Seq<ICell>, d: int, e0: int)
    requires iat(s, i, cc, d, e0), i >= s.len() || s[i] == FLAG_INIT_END
    ensures i == e0, d == cc.len()
{ assert(cc.skip(d).len() == 0); }
pub proof fn lemma_iat_op(s: Seq<usize>, i: int, cc: Seq<ICell>, d: int, e0: int)
    requires iat(s, i, cc, d, e0), i < s.len(), s[i] != FLAG_INIT_END
    ensures i + 1 < s.len(), s[i] <= 3, i < e0,
        s[i] == FLAG_INIT ==> s[i + 1] > 0 && i + 2 + s[i + 1] <= s.len(), s[i] == FLAG_INIT_REPEAT ==> i + 2 < s.len()
{
    if s[i] == FLAG_INIT { lemma_iblk_end(s, i + 2 + s[i + 1]); }
    else if s[i] == FLAG_INIT_REPEAT { lemma_iblk_end(s, i + 2); lemma_iblk_end(s, ibe(s, i + 2) + 1); } else { lemma_iblk_end(s, i + 2); }
}
// INIT, SKIP and CONTAINER operations: the cells they stand for, where the program goes on
pub open spec fn ihead(s: Seq<usize>, i: int) -> Seq<ICell> {
    if s[i] == FLAG_INIT { isets(s.subrange(i + 2, i + 2 + s[i + 1])) } else if s[i] == FLAG_INIT_SKIP { ikeeps(s[i + 1] as nat) } else { icont(s[i + 1]) }
}
pub open spec fn inext(s: Seq<usize>, i: int) -> int { if s[i] == FLAG_INIT { i + 2 + s[i + 1] } else { i + 2 } }
pub open spec fn ihlen(s: Seq<usize>, i: int) -> int { if s[i] == FLAG_INIT_CONTAINER { csize(s[i + 1]) as int } else { s[i + 1] as int } }
pub proof fn lemma_iat_head(s: Seq<usize>, i: int, cc: Seq<ICell>, d: int, e0: int)
    requires iat(s, i, cc, d, e0), i < s.len(), s[i] != FLAG_INIT_END, s[i] != FLAG_INIT_REPEAT
    ensures isame(cc, d, ihead(s, i)), ihead(s, i).len() == ihlen(s, i), iat(s, inext(s, i), cc, d + ihlen(s, i), e0), d + ihlen(s, i) <= cc.len(),
        s[i] == FLAG_INIT_CONTAINER ==> is_cont(s[i + 1]) && 1 <= csize(s[i + 1]) <= 0xFFFF_FFFF
{
    lemma_iat_op(s, i, cc, d, e0);
    axiom_cont(s[i + 1]);
    lemma_iblk_end(s, inext(s, i));
    lemma_istep(cc, d, ihead(s, i), ibc(s, inext(s, i)));
}
pub open spec fn iop_rep(s: Seq<usize>, i: int, cc: Seq<ICell>, d: int, e0: int, b: Seq<ICell>, e1: int) -> bool {
    &&& i + 2 <= e1 < s.len()
    &&& s[e1] == FLAG_INIT_END
    &&& iblk(s, i + 2) == Some((b, e1))
    &&& isb(s, i + 2, 0) == e1
    &&& isame(cc, d, irep(b, s[i + 1] as nat))
    &&& iat(s, e1 + 1, cc, d + irep(b, s[i + 1] as nat).len(), e0)
}
pub proof fn lemma_iat_rep(s: Seq<usize>, i: int, cc: Seq<ICell>, d: int, e0: int)
    requires iat(s, i, cc, d, e0), i < s.len(), s[i] == FLAG_INIT_REPEAT
    ensures iop_rep(s, i, cc, d, e0, ibc(s, i + 2), ibe(s, i + 2))
{
    lemma_iat_op(s, i, cc, d, e0);
    let b = ibc(s, i + 2); let e1 = ibe(s, i + 2);
    lemma_iblk_end(s, i + 2); lemma_iblk_end(s, e1 + 1); lemma_isb_blk(s, i + 2, 0);
    lemma_istep(cc, d, irep(b, s[i + 1] as nat), ibc(s, e1 + 1));
}
pub proof fn lemma_ielem(cc: Seq<ICell>, d: int, b: Seq<ICell>, k: nat, n: nat)
    requires isame(cc, d, irep(b, n)), k < n, 0 <= d
    ensures isame(cc, d + irep(b, k).len(), b), irep(b, k + 1).len() == irep(b, k).len() + b.len(), irep(b, k + 1).len() <= irep(b, n).len()
{
    lemma_irep_sub(b, k, n);
    if k + 1 < n { lemma_irep_sub(b, k + 1, n); }
    assert forall|j: int| 0 <= j < b.len() implies #[trigger] cc[d + irep(b, k).len() + j] == b[j] by {
        assert(cc[d + (irep(b, k).len() + j)] == irep(b, n)[irep(b, k).len() + j]);
    }
}
//@fn skipInitBlock file=typelib/memory_layout.cc class=MemoryLayout static=yes params=begin,end impl=impl~MemoryLayout
//@locals nesting:usize it:OpIt<'a>
//@spec
    requires begin.ok(), end.ok(), begin.v == end.v, begin.i <= end.i, end.i == end.v@.len()
    ensures r.v == begin.v, r.i == isb(begin.v@, begin.i as int, 0), r.i <= end.i, begin.i <= r.i, r.i < end.i ==> r.v@[r.i as int] == FLAG_INIT_END
//@loop 1
    invariant it.v == begin.v, begin.i <= it.i <= end.i, nesting <= it.i,
        isb(begin.v@, begin.i as int, 0) == isb(begin.v@, it.i as int, nesting as nat)
    decreases end.i - it.i
//@end
