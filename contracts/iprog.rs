//@include icells.rs
// Complete initialisation programs and their composition.
pub open spec fn iprog(t: Seq<usize>) -> bool { iblk(t, 0) is Some && ibe(t, 0) == t.len() }
pub open spec fn icl(t: Seq<usize>) -> Seq<ICell> { ibc(t, 0) }
pub proof fn lemma_ishift(a: Seq<usize>, b: Seq<usize>, k: int)
    requires 0 <= k <= b.len()
    ensures iblk(b, k) is Some ==> iblk(a + b, a.len() + k) == Some((ibc(b, k), a.len() + ibe(b, k))), iblk(b, k) is None ==> iblk(a + b, a.len() + k) is None
    decreases b.len() - k
{
    let s = a + b; let i = a.len() + k;
    if k < b.len() { assert(s[i] == b[k]); }
    if k + 1 < b.len() { assert(s[i + 1] == b[k + 1]); }
    if k == b.len() || b[k] == FLAG_INIT_END || k + 1 >= b.len() {}
    else if b[k] == FLAG_INIT {
        if k + 2 + b[k + 1] <= b.len() { lemma_ishift(a, b, k + 2 + b[k + 1]); assert(s.subrange(i + 2, i + 2 + b[k + 1]) =~= b.subrange(k + 2, k + 2 + b[k + 1])); }
    }
    else if b[k] == FLAG_INIT_SKIP || b[k] == FLAG_INIT_CONTAINER { lemma_ishift(a, b, k + 2); }
    else if b[k] == FLAG_INIT_REPEAT {
        lemma_ishift(a, b, k + 2);
        if iblk(b, k + 2) is Some {
            lemma_iblk_end(b, k + 2);
            let e1 = ibe(b, k + 2);
            if e1 < b.len() { lemma_ishift(a, b, e1 + 1); }
        }
    }
}
pub proof fn lemma_iinner(a: Seq<usize>, b: Seq<usize>, k: int)
    requires 0 <= k <= a.len(), iblk(a, k) is Some, ibe(a, k) < a.len()
    ensures iblk(a + b, k) == iblk(a, k)
    decreases a.len() - k
{
    let s = a + b;
    lemma_iblk_end(a, k);
    if k < a.len() { assert(s[k] == a[k]); }
    if k + 1 < a.len() { assert(s[k + 1] == a[k + 1]); }
    if k == a.len() || a[k] == FLAG_INIT_END {}
    else if a[k] == FLAG_INIT { lemma_iinner(a, b, k + 2 + a[k + 1]); assert(s.subrange(k + 2, k + 2 + a[k + 1]) =~= a.subrange(k + 2, k + 2 + a[k + 1])); }
    else if a[k] == FLAG_INIT_SKIP || a[k] == FLAG_INIT_CONTAINER { lemma_iinner(a, b, k + 2); }
    else {
        lemma_iblk_end(a, k + 2);
        lemma_iinner(a, b, k + 2);
        lemma_iinner(a, b, ibe(a, k + 2) + 1);
    }
}
pub proof fn lemma_iouter(a: Seq<usize>, b: Seq<usize>, k: int)
    requires 0 <= k <= a.len(), iblk(a, k) is Some, ibe(a, k) == a.len(), iblk(b, 0) is Some, ibc(a, k).len() + ibc(b, 0).len() <= usize::MAX
    ensures iblk(a + b, k) == Some((ibc(a, k) + ibc(b, 0), a.len() + ibe(b, 0)))
    decreases a.len() - k
{
    let s = a + b;
    lemma_iblk_end(a, k);
    if k < a.len() { assert(s[k] == a[k]); }
    if k + 1 < a.len() { assert(s[k + 1] == a[k + 1]); }
    if k == a.len() { lemma_ishift(a, b, 0); assert(ibc(a, k) + ibc(b, 0) =~= ibc(b, 0)); lemma_iblk_end(b, 0); }
    else if a[k] == FLAG_INIT_END {}
    else if a[k] == FLAG_INIT_REPEAT {
        lemma_iblk_end(a, k + 2);
        let e1 = ibe(a, k + 2);
        lemma_iinner(a, b, k + 2);
        lemma_iouter(a, b, e1 + 1);
        let h = irep(ibc(a, k + 2), a[k + 1] as nat);
        assert(h + (ibc(a, e1 + 1) + ibc(b, 0)) =~= ibc(a, k) + ibc(b, 0));
    } else {
        let nx = inext(a, k);
        lemma_iouter(a, b, nx);
        let h = ihead(a, k);
        if a[k] == FLAG_INIT { assert(s.subrange(k + 2, k + 2 + a[k + 1]) =~= a.subrange(k + 2, k + 2 + a[k + 1])); }
        assert(h + (ibc(a, nx) + ibc(b, 0)) =~= ibc(a, k) + ibc(b, 0));
    }
}
pub proof fn lemma_iprog_cat(a: Seq<usize>, b: Seq<usize>)
    requires iprog(a), iprog(b), icl(a).len() + icl(b).len() <= usize::MAX
    ensures iprog(a + b), icl(a + b) == icl(a) + icl(b)
{ lemma_iouter(a, b, 0); }
pub proof fn lemma_iprog_empty()
    ensures iprog(seq![]), icl(seq![]) == Seq::<ICell>::empty()
{}
pub proof fn lemma_iprog_skip(n: usize)
    ensures iprog(seq![FLAG_INIT_SKIP, n]), icl(seq![FLAG_INIT_SKIP, n]) == ikeeps(n as nat)
{
    let t = seq![FLAG_INIT_SKIP, n];
    assert(iblk(t, 2) == Some((Seq::<ICell>::empty(), 2int)));
    assert(ikeeps(n as nat) + Seq::<ICell>::empty() =~= ikeeps(n as nat));
}
pub proof fn lemma_iprog_cont(p: usize)
    requires is_cont(p)
    ensures iprog(seq![FLAG_INIT_CONTAINER, p]), icl(seq![FLAG_INIT_CONTAINER, p]) == icont(p)
{
    let t = seq![FLAG_INIT_CONTAINER, p];
    axiom_cont(p);
    assert(iblk(t, 2) == Some((Seq::<ICell>::empty(), 2int)));
    assert(icont(p) + Seq::<ICell>::empty() =~= icont(p));
}
pub open spec fn bsets(b: Seq<u8>) -> Seq<ICell> { Seq::new(b.len(), |i: int| ICell::Set(b[i])) }
pub open spec fn iop(b: Seq<u8>) -> Seq<usize> { seq![FLAG_INIT, b.len() as usize] + to_words(b) }
pub proof fn lemma_iprog_init(b: Seq<u8>)
    requires 0 < b.len() <= usize::MAX
    ensures iprog(iop(b)), icl(iop(b)) == bsets(b)
{
    let t = iop(b);
    let n = b.len() as int;
    assert(t[0] == FLAG_INIT && t[1] == n && t.len() == n + 2);
    assert(iblk(t, 2 + n) == Some((Seq::<ICell>::empty(), 2 + n)));
    let h = isets(t.subrange(2, 2 + n));
    assert forall|i: int| 0 <= i < n implies h[i] == bsets(b)[i] by { assert(t[2 + i] == to_words(b)[i]); }
    assert(h =~= bsets(b));
    assert(h + Seq::<ICell>::empty() =~= h);
}
pub open spec fn inest(n: usize, b: Seq<usize>) -> Seq<usize> { seq![FLAG_INIT_REPEAT, n] + b + seq![FLAG_INIT_END] }
pub proof fn lemma_iprog_nest(x: usize, b: Seq<usize>)
    requires iprog(b), irep(icl(b), x as nat).len() <= usize::MAX
    ensures iprog(inest(x, b)), icl(inest(x, b)) == irep(icl(b), x as nat)
{
    let en = seq![FLAG_INIT_END];
    let t = inest(x, b);
    lemma_iblk_end(b, 0);
    assert(iblk(en, 0) == Some((Seq::<ICell>::empty(), 0int)));
    lemma_iouter(b, en, 0);
    assert(ibc(b, 0) + Seq::<ICell>::empty() =~= ibc(b, 0));
    let h = seq![FLAG_INIT_REPEAT, x];
    assert(t =~= h + (b + en));
    lemma_ishift(h, b + en, 0);
    assert(iblk(t, 2) == Some((icl(b), (2 + b.len()) as int)));
    assert(t[0] == FLAG_INIT_REPEAT && t[1] == x && t[(2 + b.len()) as int] == FLAG_INIT_END && t.len() == b.len() + 3);
    let r = irep(icl(b), x as nat);
    assert(iblk(t, t.len() as int) == Some((Seq::<ICell>::empty(), t.len() as int)));
    assert(r + Seq::<ICell>::empty() =~= r);
}
pub proof fn lemma_iprog_small(t: Seq<usize>)
    requires iprog(t), t.len() == 0 || (t.len() == 2 && t[0] == FLAG_INIT_SKIP)
    ensures t.len() == 0 ==> icl(t) == Seq::<ICell>::empty(), t.len() == 2 ==> icl(t) == ikeeps(t[1] as nat)
{ if t.len() == 2 { assert(t =~= seq![t[0], t[1]]); lemma_iprog_skip(t[1]); } }
pub proof fn lemma_irep_mul(b: Seq<ICell>, n: nat)
    ensures irep(b, n).len() == b.len() * n
    decreases n
{ if n > 0 { lemma_irep_mul(b, (n - 1) as nat); assert(b.len() * n == b.len() * (n - 1) + b.len()) by (nonlinear_arith) requires n > 0; } else { assert(b.len() * 0 == 0) by (nonlinear_arith); } }
pub proof fn lemma_irep_keep(k: nat, n: nat)
    ensures irep(ikeeps(k), n) == ikeeps(k * n)
    decreases n
{
    if n > 0 { lemma_irep_keep(k, (n - 1) as nat); assert(k * n == k * (n - 1) + k) by (nonlinear_arith) requires n > 0; assert(ikeeps((k * (n - 1)) as nat) + ikeeps(k) =~= ikeeps(k * n)); }
    else { assert(k * 0 == 0) by (nonlinear_arith); assert(ikeeps(0) =~= irep(ikeeps(k), 0)); }
}
