//@include skip.rs
// Complete programs and their composition.
pub open spec fn prog(t: Seq<usize>) -> bool { blk(t, 0) is Some && be(t, 0) == t.len() }
pub open spec fn cells(t: Seq<usize>) -> Seq<Cell> { bc(t, 0) }
pub proof fn lemma_shift(a: Seq<usize>, b: Seq<usize>, k: int)
    requires 0 <= k <= b.len()
    ensures blk(b, k) is Some ==> blk(a + b, a.len() + k) == Some((bc(b, k), a.len() + be(b, k))), blk(b, k) is None ==> blk(a + b, a.len() + k) is None
    decreases b.len() - k
{
    let s = a + b; let i = a.len() + k;
    if k < b.len() { assert(s[i] == b[k]); }
    if k + 1 < b.len() { assert(s[i + 1] == b[k + 1]); }
    if k == b.len() || b[k] == FLAG_END || k + 1 >= b.len() {}
    else if b[k] == FLAG_MEMCPY || b[k] == FLAG_SKIP { lemma_shift(a, b, k + 2); }
    else if b[k] == FLAG_ARRAY || b[k] == FLAG_CONTAINER {
        lemma_shift(a, b, k + 2);
        if blk(b, k + 2) is Some {
            lemma_blk_end(b, k + 2);
            let e1 = be(b, k + 2);
            if e1 < b.len() { lemma_shift(a, b, e1 + 1); }
        }
    }
}
// a block of a that ends before the end of a is the same block of a + b
pub proof fn lemma_inner(a: Seq<usize>, b: Seq<usize>, k: int)
    requires 0 <= k <= a.len(), blk(a, k) is Some, be(a, k) < a.len()
    ensures blk(a + b, k) == blk(a, k)
    decreases a.len() - k
{
    let s = a + b;
    lemma_blk_end(a, k);
    if k < a.len() { assert(s[k] == a[k]); }
    if k + 1 < a.len() { assert(s[k + 1] == a[k + 1]); }
    if k == a.len() || a[k] == FLAG_END {}
    else if a[k] == FLAG_MEMCPY || a[k] == FLAG_SKIP { lemma_inner(a, b, k + 2); }
    else {
        lemma_blk_end(a, k + 2);
        lemma_inner(a, b, k + 2);
        lemma_inner(a, b, be(a, k + 2) + 1);
    }
}
// a block that runs to the end of a continues in b
pub proof fn lemma_outer(a: Seq<usize>, b: Seq<usize>, k: int)
    requires 0 <= k <= a.len(), blk(a, k) is Some, be(a, k) == a.len(), blk(b, 0) is Some, bc(a, k).len() + bc(b, 0).len() <= usize::MAX
    ensures blk(a + b, k) == Some((bc(a, k) + bc(b, 0), a.len() + be(b, 0)))
    decreases a.len() - k
{
    let s = a + b;
    lemma_blk_end(a, k);
    if k < a.len() { assert(s[k] == a[k]); }
    if k + 1 < a.len() { assert(s[k + 1] == a[k + 1]); }
    if k == a.len() { lemma_shift(a, b, 0); assert(bc(a, k) + bc(b, 0) =~= bc(b, 0)); lemma_blk_end(b, 0); }
    else if a[k] == FLAG_END {}
    else if a[k] == FLAG_MEMCPY || a[k] == FLAG_SKIP {
        lemma_outer(a, b, k + 2);
        let h = if a[k] == FLAG_MEMCPY { datas(a[k + 1] as nat) } else { pads(a[k + 1] as nat) };
        assert(h + (bc(a, k + 2) + bc(b, 0)) =~= bc(a, k) + bc(b, 0));
    } else {
        lemma_blk_end(a, k + 2);
        let e1 = be(a, k + 2);
        lemma_inner(a, b, k + 2);
        lemma_outer(a, b, e1 + 1);
        let h = if a[k] == FLAG_ARRAY { rep(bc(a, k + 2), a[k + 1] as nat) } else { cont(a[k + 1], bc(a, k + 2)) };
        assert(h + (bc(a, e1 + 1) + bc(b, 0)) =~= bc(a, k) + bc(b, 0));
    }
}
pub proof fn lemma_prog_cat(a: Seq<usize>, b: Seq<usize>)
    requires prog(a), prog(b), cells(a).len() + cells(b).len() <= usize::MAX
    ensures prog(a + b), cells(a + b) == cells(a) + cells(b)
{ lemma_outer(a, b, 0); }
pub proof fn lemma_prog_empty()
    ensures prog(seq![]), cells(seq![]) == Seq::<Cell>::empty()
{}
pub open spec fn pend(op: usize, n: nat) -> Seq<Cell> { if op == FLAG_MEMCPY { datas(n) } else { pads(n) } }
pub proof fn lemma_prog_op(op: usize, n: usize)
    requires op == FLAG_MEMCPY || op == FLAG_SKIP
    ensures prog(seq![op, n]), cells(seq![op, n]) == pend(op, n as nat)
{
    let t = seq![op, n];
    assert(blk(t, 2) == Some((Seq::<Cell>::empty(), 2int)));
    assert(pend(op, n as nat) + Seq::<Cell>::empty() =~= pend(op, n as nat));
}
// [op x] body END
pub open spec fn nest(op: usize, x: usize, b: Seq<usize>) -> Seq<usize> { seq![op, x] + b + seq![FLAG_END] }
pub proof fn lemma_prog_nest(op: usize, x: usize, b: Seq<usize>)
    requires prog(b), op == FLAG_ARRAY && rep(cells(b), x as nat).len() <= usize::MAX || op == FLAG_CONTAINER && is_cont(x)
    ensures prog(nest(op, x, b)), cells(nest(op, x, b)) == (if op == FLAG_ARRAY { rep(cells(b), x as nat) } else { cont(x, cells(b)) })
{
    axiom_cont(x);
    let en = seq![FLAG_END];
    let t = nest(op, x, b);
    lemma_blk_end(b, 0);
    // the body with its end
    assert(blk(en, 0) == Some((Seq::<Cell>::empty(), 0int)));
    lemma_outer(b, en, 0);
    assert(bc(b, 0) + Seq::<Cell>::empty() =~= bc(b, 0));
    let h = seq![op, x];
    assert(t =~= h + (b + en));
    lemma_shift(h, b + en, 0);
    assert(blk(t, 2) == Some((cells(b), (2 + b.len()) as int)));
    assert(t[0] == op && t[1] == x && t[(2 + b.len()) as int] == FLAG_END && t.len() == b.len() + 3);
    let r = if op == FLAG_ARRAY { rep(cells(b), x as nat) } else { cont(x, cells(b)) };
    assert(blk(t, t.len() as int) == Some((Seq::<Cell>::empty(), t.len() as int)));
    assert(r + Seq::<Cell>::empty() =~= r);
}
// complete programs of at most two words
pub proof fn lemma_prog_small(t: Seq<usize>)
    requires prog(t), t.len() == 0 || t.len() == 2
    ensures t.len() == 0 ==> cells(t) == Seq::<Cell>::empty(),
        t.len() == 2 ==> (t[0] == FLAG_MEMCPY || t[0] == FLAG_SKIP) && cells(t) == pend(t[0], t[1] as nat)
{
    if t.len() == 2 {
        if t[0] == FLAG_END {}
        else if t[0] == FLAG_MEMCPY || t[0] == FLAG_SKIP { assert(t =~= seq![t[0], t[1]]); lemma_prog_op(t[0], t[1]); }
        else { assert(blk(t, 2) == Some((Seq::<Cell>::empty(), 2int))); }
    }
}
pub proof fn lemma_rep_mul(b: Seq<Cell>, n: nat)
    ensures rep(b, n).len() == b.len() * n
    decreases n
{ if n > 0 { lemma_rep_mul(b, (n - 1) as nat); assert(b.len() * n == b.len() * (n - 1) + b.len()) by (nonlinear_arith) requires n > 0; } else { assert(b.len() * 0 == 0) by (nonlinear_arith); } }
pub proof fn lemma_rep_pend(op: usize, k: nat, n: nat)
    ensures rep(pend(op, k), n) == pend(op, k * n)
    decreases n
{
    if n > 0 { lemma_rep_pend(op, k, (n - 1) as nat); assert(k * n == k * (n - 1) + k) by (nonlinear_arith) requires n > 0; assert(pend(op, (k * (n - 1)) as nat) + pend(op, k) =~= pend(op, k * n)); }
    else { assert(k * 0 == 0) by (nonlinear_arith); assert(pend(op, 0) =~= rep(pend(op, k), 0)); }
}
