//@include prog.rs
//@include mem.rs
//@include pushops.rs
// c2 describes the same bytes as c: with merging, padding may have become data
pub open spec fn refn(c: Seq<Cell>, c2: Seq<Cell>, mg: bool) -> bool
    decreases c
{
    c.len() == c2.len() && forall|j: int| 0 <= j < c.len() ==> refc(#[trigger] c[j], c2[j], mg)
}
pub open spec fn refc(x: Cell, y: Cell, mg: bool) -> bool
    decreases x
{
    match x {
        Cell::Data => y is Data,
        Cell::Pad => y is Pad || (mg && y is Data),
        Cell::Tail => y is Tail,
        Cell::Cont(p, e) => y is Cont && y->Cont_0 == p && refn(e, y->Cont_1, mg),
    }
}
// the program t is a simplification of the cells c; cut: padding at the end may be missing
pub open spec fn sres(c: Seq<Cell>, t: Seq<usize>, mg: bool, cut: bool) -> bool {
    &&& prog(t) && cells(t).len() <= c.len()
    &&& refn(c.take(cells(t).len() as int), cells(t), mg)
    &&& forall|j: int| cells(t).len() <= j < c.len() ==> #[trigger] c[j] is Pad
    &&& !cut ==> cells(t).len() == c.len()
}
// ---- the state of a simplification: cc[0..d) has become the program t and count pending bytes of operation op,
// ---- the last k of which are padding
pub open spec fn sst(cc: Seq<Cell>, d: int, mg: bool, t: Seq<usize>, op: usize, cnt: nat, k: nat) -> bool {
    &&& prog(t) && (op == FLAG_MEMCPY || op == FLAG_SKIP) && 0 <= d <= cc.len() <= usize::MAX
    &&& k <= cnt && refn(cc.take(d), cells(t) + pend(op, cnt), mg)
    &&& forall|j: int| d - k <= j < d ==> #[trigger] cc[j] is Pad
    &&& !mg && k > 0 ==> op == FLAG_SKIP
}
pub open spec fn flush(t: Seq<usize>, op: usize, cnt: nat) -> Seq<usize> { if cnt > 0 { t + seq![op, cnt as usize] } else { t } }
pub proof fn lemma_s_start(cc: Seq<Cell>, mg: bool)
    requires cc.len() <= usize::MAX
    ensures sst(cc, 0, mg, Seq::<usize>::empty(), FLAG_MEMCPY, 0, 0)
{ lemma_prog_empty(); }
pub proof fn lemma_s_len(cc: Seq<Cell>, d: int, mg: bool, t: Seq<usize>, op: usize, cnt: nat, k: nat)
    requires sst(cc, d, mg, t, op, cnt, k)
    ensures cells(t).len() + cnt == d, k <= cnt <= d <= cc.len(), cc.len() <= usize::MAX, op == FLAG_MEMCPY || op == FLAG_SKIP
{}
pub proof fn lemma_s_flush(cc: Seq<Cell>, d: int, mg: bool, t: Seq<usize>, op: usize, cnt: nat, k: nat)
    requires sst(cc, d, mg, t, op, cnt, k)
    ensures prog(flush(t, op, cnt)), cells(flush(t, op, cnt)) == cells(t) + pend(op, cnt), sst(cc, d, mg, flush(t, op, cnt), op, 0, 0)
{
    if cnt > 0 { lemma_prog_op(op, cnt as usize); lemma_prog_cat(t, seq![op, cnt as usize]); }
    else { assert(cells(t) + pend(op, 0) =~= cells(t)); }
    assert(cells(flush(t, op, cnt)) + pend(op, 0) =~= cells(t) + pend(op, cnt));
}
pub proof fn lemma_refn_cat(cc: Seq<Cell>, d: int, h: Seq<Cell>, a: Seq<Cell>, b: Seq<Cell>, mg: bool)
    requires 0 <= d <= cc.len(), refn(cc.take(d), a, mg), refn(h, b, mg), same_run(cc, d, h)
    ensures refn(cc.take(d + h.len()), a + b, mg)
{
    let x = cc.take(d + h.len());
    assert forall|j: int| 0 <= j < x.len() implies refc(#[trigger] x[j], (a + b)[j], mg) by {
        if j < d { assert(cc.take(d)[j] == x[j]); } else { assert(cc[d + (j - d)] == h[j - d]); assert(refc(h[j - d], b[j - d], mg)); }
    }
}
pub proof fn lemma_refn_self(h: Seq<Cell>, mg: bool)
    requires forall|j: int| 0 <= j < h.len() ==> !(#[trigger] h[j] is Cont)
    ensures refn(h, h, mg)
{ assert forall|j: int| 0 <= j < h.len() implies refc(#[trigger] h[j], h[j], mg) by {} }
pub proof fn lemma_refn_rep(b: Seq<Cell>, b2: Seq<Cell>, n: nat, mg: bool)
    requires refn(b, b2, mg)
    ensures refn(rep(b, n), rep(b2, n), mg)
    decreases n
{
    if n > 0 {
        lemma_refn_rep(b, b2, (n - 1) as nat, mg);
        let cc = rep(b, n); let d = rep(b, (n - 1) as nat).len() as int;
        assert(cc.take(d) =~= rep(b, (n - 1) as nat));
        assert(same_run(cc, d, b));
        lemma_refn_cat(cc, d, b, rep(b2, (n - 1) as nat), b2, mg);
        assert(cc.take(d + b.len()) =~= cc);
    }
}
// a MEMCPY or SKIP operation of n bytes
pub proof fn lemma_s_raw(cc: Seq<Cell>, d: int, mg: bool, t: Seq<usize>, op: usize, cnt: nat, k: nat, o: usize, n: nat)
    requires sst(cc, d, mg, t, op, cnt, k), same_run(cc, d, pend(o, n)), o == FLAG_MEMCPY || o == FLAG_SKIP, d + n <= cc.len()
    ensures ({ let k2 = if o == FLAG_SKIP { k + n } else { 0 };
        &&& o == op ==> sst(cc, d + n, mg, t, op, cnt + n, k2)
        &&& o != op && mg ==> sst(cc, d + n, mg, t, FLAG_MEMCPY, cnt + n, k2)
        &&& o != op && !mg ==> sst(cc, d + n, mg, flush(t, op, cnt), o, n, k2) })
{
    let h = pend(o, n);
    let a = cells(t) + pend(op, cnt);
    let k2 = if o == FLAG_SKIP { k + n } else { 0 };
    assert forall|j: int| d <= j < d + n implies #[trigger] cc[j] == h[j - d] by { assert(cc[d + (j - d)] == h[j - d]); }
    assert forall|j: int| d + n - k2 <= j < d + n implies #[trigger] cc[j] is Pad by { if j >= d { assert(cc[j] == h[j - d]); } }
    lemma_refn_self(h, mg);
    if o == op {
        lemma_refn_cat(cc, d, h, a, h, mg);
        assert(a + h =~= cells(t) + pend(op, cnt + n));
    } else if mg {
        // padding becomes data
        let h2 = datas(n);
        assert forall|j: int| 0 <= j < h.len() implies refc(#[trigger] h[j], h2[j], mg) by {}
        lemma_refn_cat(cc, d, h, a, h2, mg);
        let b = cells(t) + pend(FLAG_MEMCPY, cnt + n);
        let x = cc.take(d + n);
        assert forall|j: int| 0 <= j < x.len() implies refc(#[trigger] x[j], b[j], mg) by { assert(refc(x[j], (a + h2)[j], mg)); }
    } else {
        lemma_s_flush(cc, d, mg, t, op, cnt, k);
        lemma_refn_cat(cc, d, h, a, h, mg);
        assert(a + h =~= cells(flush(t, op, cnt)) + pend(o, n));
    }
}
// an array whose simplified body is tb
pub proof fn lemma_s_arr(cc: Seq<Cell>, d: int, mg: bool, t: Seq<usize>, op: usize, cnt: nat, k: nat, b: Seq<Cell>, n: usize, tb: Seq<usize>)
    requires sst(cc, d, mg, t, op, cnt, k), same_run(cc, d, rep(b, n as nat)), prog(tb), refn(b, cells(tb), mg)
    ensures ({ let d2 = d + rep(b, n as nat).len(); let m = (tb[1] * n) as nat;
        &&& tb.len() == 2 ==> m <= usize::MAX && cnt + m <= usize::MAX && (tb[0] == op && cnt > 0 ==> sst(cc, d2, mg, t, op, cnt + m, 0))
            && (!(tb[0] == op && cnt > 0) ==> sst(cc, d2, mg, flush(t, op, cnt), tb[0], m, 0))
        &&& tb.len() == 0 ==> sst(cc, d2, mg, t, op, cnt, 0)
        &&& tb.len() != 0 && tb.len() != 2 ==> sst(cc, d2, mg, flush(t, op, cnt) + nest(FLAG_ARRAY, n, tb), op, 0, 0) })
{
    let cb = cells(tb); let h = rep(b, n as nat); let h2 = rep(cb, n as nat);
    let a = cells(t) + pend(op, cnt);
    let d2 = d + h.len();
    lemma_refn_rep(b, cb, n as nat, mg);
    lemma_refn_cat(cc, d, h, a, h2, mg);
    lemma_s_flush(cc, d, mg, t, op, cnt, k);
    lemma_rep_mul(cb, n as nat);
    if tb.len() == 2 {
        lemma_prog_small(tb);
        let m = (tb[1] * n) as nat;
        assert(0 <= tb[1] * n) by (nonlinear_arith);
        lemma_rep_pend(tb[0], tb[1] as nat, n as nat);
        if tb[0] == op && cnt > 0 { assert(a + h2 =~= cells(t) + pend(op, cnt + m)); }
        else { assert(a + h2 =~= cells(flush(t, op, cnt)) + pend(tb[0], m)); }
    } else if tb.len() == 0 {
        lemma_prog_small(tb);
        assert(cb.len() * (n as nat) == 0) by (nonlinear_arith) requires cb.len() == 0;
        assert(a + h2 =~= a);
    } else {
        lemma_prog_nest(FLAG_ARRAY, n, tb);
        lemma_prog_cat(flush(t, op, cnt), nest(FLAG_ARRAY, n, tb));
        assert(a + h2 =~= cells(flush(t, op, cnt) + nest(FLAG_ARRAY, n, tb)) + pend(op, 0));
    }
}
pub proof fn lemma_s_cont(cc: Seq<Cell>, d: int, mg: bool, t: Seq<usize>, op: usize, cnt: nat, k: nat, b: Seq<Cell>, p: usize, tb: Seq<usize>)
    requires sst(cc, d, mg, t, op, cnt, k), same_run(cc, d, cont(p, b)), is_cont(p), prog(tb), refn(b, cells(tb), mg)
    ensures sst(cc, d + csize(p), mg, flush(t, op, cnt) + nest(FLAG_CONTAINER, p, tb), op, 0, 0)
{
    axiom_cont(p);
    let cb = cells(tb); let h = cont(p, b); let h2 = cont(p, cb);
    let a = cells(t) + pend(op, cnt);
    assert(refc(h[0], h2[0], mg));
    assert forall|j: int| 0 <= j < h.len() implies refc(#[trigger] h[j], h2[j], mg) by {}
    lemma_refn_cat(cc, d, h, a, h2, mg);
    lemma_s_flush(cc, d, mg, t, op, cnt, k);
    lemma_prog_nest(FLAG_CONTAINER, p, tb);
    lemma_prog_cat(flush(t, op, cnt), nest(FLAG_CONTAINER, p, tb));
    assert(a + h2 =~= cells(flush(t, op, cnt) + nest(FLAG_CONTAINER, p, tb)) + pend(op, 0));
}
// the end of the block
pub proof fn lemma_s_end(cc: Seq<Cell>, mg: bool, t: Seq<usize>, op: usize, cnt: nat, k: nat)
    requires sst(cc, cc.len() as int, mg, t, op, cnt, k)
    ensures sres(cc, flush(t, op, cnt), mg, false), sres(cc, flush(t, op, cnt), mg, true),
        op == FLAG_SKIP ==> sres(cc, t, mg, true),
        op == FLAG_MEMCPY && cnt > 0 ==> sres(cc, t + seq![op, (cnt - k) as usize], mg, true)
{
    lemma_s_flush(cc, cc.len() as int, mg, t, op, cnt, k);
    assert(cc.take(cc.len() as int) =~= cc);
    let a = cells(t) + pend(op, cnt);
    if op == FLAG_SKIP { lemma_s_cut(cc, mg, a, cells(t)); }
    if op == FLAG_MEMCPY && cnt > 0 {
        let m = (cnt - k) as usize;
        lemma_prog_op(op, m); lemma_prog_cat(t, seq![op, m]);
        let b = cells(t + seq![op, m]);
        assert(b =~= a.take(b.len() as int));
        let x = cc.take(b.len() as int);
        assert forall|j: int| 0 <= j < x.len() implies refc(#[trigger] x[j], b[j], mg) by { assert(refc(cc[j], a[j], mg)); }
    }
}
pub proof fn lemma_s_cut(cc: Seq<Cell>, mg: bool, a: Seq<Cell>, b: Seq<Cell>)
    requires refn(cc, a, mg), b.len() <= a.len(), b =~= a.take(b.len() as int), forall|j: int| b.len() <= j < a.len() ==> #[trigger] a[j] is Pad
    ensures refn(cc.take(b.len() as int), b, mg), forall|j: int| b.len() <= j < cc.len() ==> #[trigger] cc[j] is Pad
{
    let x = cc.take(b.len() as int);
    assert forall|j: int| 0 <= j < x.len() implies refc(#[trigger] x[j], b[j], mg) by { assert(refc(cc[j], a[j], mg)); }
    assert forall|j: int| b.len() <= j < cc.len() implies #[trigger] cc[j] is Pad by { assert(refc(cc[j], a[j], mg)); assert(a[j] is Pad); }
}
// without merging the simplified cells are the original ones
pub proof fn lemma_refn_exact(c: Seq<Cell>, c2: Seq<Cell>)
    requires refn(c, c2, false)
    ensures c == c2
    decreases c
{
    assert forall|j: int| 0 <= j < c.len() implies c[j] == c2[j] by {
        assert(refc(c[j], c2[j], false));
        match c[j] { Cell::Cont(p, e) => { lemma_refn_exact(e, c2[j]->Cont_1); } _ => {} }
    }
    assert(c =~= c2);
}

//@fn simplifyBlock file=typelib/memory_layout.cc class=MemoryLayout params=merge_skip_copy,remove_trailing_skips,it,end,depth,simplified throws=yes impl=impl~MemoryLayout
//@spec
    requires it.v == end.v, it.i <= end.i, end.i == end.v@.len(), blk(it.v@, it.i as int) is Some, be(it.v@, it.i as int) < it.v@.len(),
        0 < depth <= it.i, it.v@.len() <= u32::MAX
    ensures r is Ok, r->Ok_0.v == it.v, r->Ok_0.i == be(it.v@, it.i as int), final(simplified).init_ops@ == old(simplified).init_ops@,
        starts(old(simplified).ops@, final(simplified).ops@),
        sres(bc(it.v@, it.i as int), rest(old(simplified).ops@, final(simplified).ops@), merge_skip_copy, false)
    decreases end.i - it.i, 1int
//@at entry
    proof { lemma_blk_end(it.v@, it.i as int); }
//@end
//@fn simplify_ops name=simplify file=typelib/memory_layout.cc class=MemoryLayout params=merge_skip_copy,remove_trailing_skips,it,end,depth,simplified throws=yes impl=impl~MemoryLayout
//@spec
    requires it.v == end.v, it.i <= end.i, end.i == end.v@.len(), blk(it.v@, it.i as int) is Some, depth > 0 ==> be(it.v@, it.i as int) < it.v@.len(),
        depth <= it.i, it.v@.len() <= u32::MAX
    ensures r is Ok, r->Ok_0.v == it.v, r->Ok_0.i == be(it.v@, it.i as int), final(simplified).init_ops@ == old(simplified).init_ops@,
        starts(old(simplified).ops@, final(simplified).ops@),
        sres(bc(it.v@, it.i as int), rest(old(simplified).ops@, final(simplified).ops@), merge_skip_copy, remove_trailing_skips && be(it.v@, it.i as int) == it.v@.len())
    decreases end.i - it.i, 0int
//@hide blk sb rep at op_run refn sst prog cells pend sres same_run
//@at entry
    let ghost s = it.v@; let ghost b0 = it.i as int; let ghost cc = bc(s, b0); let ghost e0 = be(s, b0); let ghost p0 = simplified.ops@;
    let ghost mut d: int = 0; let ghost mut t: Seq<usize> = seq![]; let ghost mg = merge_skip_copy;
    proof { lemma_at_start(s, b0); lemma_blk_end(s, b0); lemma_s_start(cc, mg); assert(p0 + t =~= p0); }
//@loop 1
    invariant it.v == end.v, b0 <= it.i <= end.i, at(s, it.i as int, cc, d, e0), simplified.ops@ == p0 + t, simplified.init_ops@ == old(simplified).init_ops@,
        sst(cc, d, mg, t, current_op, current_op_count as nat, current_skip_count as nat), 0 <= d
    decreases end.i - it.i
//@at loop1.begin
    let ghost i0 = it.i as int; let ghost d0 = d; let ghost t0 = t; let ghost op0 = current_op; let ghost c0 = current_op_count as nat; let ghost k0 = current_skip_count as nat;
    let ghost t1 = flush(t0, op0, c0);
    proof {
        lemma_s_len(cc, d0, mg, t0, op0, c0, k0);
        lemma_starts(p0, t0); lemma_starts(p0, t1); assert(p0 + t0 + seq![op0, c0 as usize] =~= p0 + (t0 + seq![op0, c0 as usize]));
        if s[i0] == FLAG_END { lemma_at_end(s, i0, cc, d0, e0); lemma_s_end(cc, mg, t0, op0, c0, k0); lemma_sres_any(cc, t1, mg, remove_trailing_skips && e0 == s.len()); }
        else { lemma_at_op(s, i0, cc, d0, e0); }
    }
    let ghost x = s[i0 + 1]; let ghost b = bc(s, i0 + 2); let ghost e1 = be(s, i0 + 2);
    proof {
        if s[i0] == FLAG_ARRAY { lemma_at_array(s, i0, cc, d0, e0); }
        else if s[i0] == FLAG_CONTAINER { lemma_at_cont(s, i0, cc, d0, e0); lemma_op_cont_run2(s, i0, cc, d0, e0, b, e1); }
        else if s[i0] != FLAG_END { lemma_at_run(s, i0, cc, d0, e0); lemma_op_run_pend(s, i0, cc, d0, e0); lemma_s_raw(cc, d0, mg, t0, op0, c0, k0, s[i0], x as nat); }
    }
//@at call:simplifyBlock#1.before
    let ghost q = simplified.ops@;
    proof { assert(q =~= p0 + (t1 + seq![FLAG_ARRAY, x])); }
//@at call:simplifyBlock#1.after
    let ghost tb = rest(q, simplified.ops@);
    proof {
        lemma_starts2(q, simplified.ops@);
        lemma_sres_full(b, tb, mg);
        lemma_s_arr(cc, d0, mg, t0, op0, c0, k0, b, x, tb);
        assert(q.len() == p0.len() + t1.len() + 2);
        assert(simplified.ops@ =~= p0 + t1 + seq![FLAG_ARRAY, x] + tb);
        d = d0 + rep(b, x as nat).len();
        if tb.len() == 2 {
            assert(simplified.ops@[q.len() as int] == tb[0] && simplified.ops@[q.len() as int + 1] == tb[1]);
            if tb[0] == op0 && c0 > 0 { t = t0; } else { t = t1; }
        } else if tb.len() == 0 { t = t0; }
        else { t = t1 + nest(FLAG_ARRAY, x, tb); }
        assert(simplified.ops@.take(q.len() - 2) =~= p0 + t1);
        if c0 > 0 { assert(simplified.ops@.take(q.len() - 4) =~= p0 + t0); }
    }
//@at call:pushEnd#1.after
    proof { assert(simplified.ops@ =~= p0 + t); }
//@at call:simplifyBlock#2.before
    let ghost q = simplified.ops@;
    proof { assert(q =~= p0 + (t1 + seq![FLAG_CONTAINER, x])); }
//@at call:simplifyBlock#2.after
    let ghost tb = rest(q, simplified.ops@);
    proof {
        lemma_starts2(q, simplified.ops@);
        lemma_sres_full(b, tb, mg);
        lemma_s_cont(cc, d0, mg, t0, op0, c0, k0, b, x, tb);
        d = d0 + csize(x);
        t = t1 + nest(FLAG_CONTAINER, x, tb);
    }
//@at call:pushEnd#2.after
    proof { assert(simplified.ops@ =~= p0 + t); }
//@at loop1.end
    proof {
        if s[i0] == FLAG_MEMCPY || s[i0] == FLAG_SKIP {
            d = d0 + x;
            if s[i0] != op0 && !mg { t = t1; }
        }
    }
//@at loop1.after
    proof { lemma_at_end(s, it.i as int, cc, d, e0); lemma_s_end(cc, mg, t, current_op, current_op_count as nat, current_skip_count as nat);
        let fl = flush(t, current_op, current_op_count as nat); let fc = t + seq![current_op, (current_op_count - current_skip_count) as usize];
        lemma_s_len(cc, d, mg, t, current_op, current_op_count as nat, current_skip_count as nat);
        lemma_starts(p0, fl); lemma_starts(p0, t); lemma_starts(p0, fc);
        lemma_sres_any(cc, fl, mg, remove_trailing_skips && e0 == s.len());
        assert(it.i == s.len() && e0 == it.i);
        assert(p0 + t + seq![current_op, current_op_count] =~= p0 + (t + seq![current_op, current_op_count]));
        assert(p0 + t + seq![current_op, (current_op_count - current_skip_count) as usize] =~= p0 + fc);
    }
//@end
pub proof fn lemma_sres_any(c: Seq<Cell>, t: Seq<usize>, mg: bool, cut: bool)
    requires sres(c, t, mg, false)
    ensures sres(c, t, mg, cut)
{}
pub proof fn lemma_sres_full(c: Seq<Cell>, t: Seq<usize>, mg: bool)
    requires sres(c, t, mg, false)
    ensures prog(t), refn(c, cells(t), mg)
{ assert(c.take(c.len() as int) =~= c); }
pub proof fn lemma_op_cont_run2(s: Seq<usize>, i: int, cc: Seq<Cell>, d: int, e0: int, b: Seq<Cell>, e1: int)
    requires op_cont(s, i, cc, d, e0, b, e1), d >= 0, i >= 0
    ensures same_run(cc, d, cont(s[i + 1], b)), d + csize(s[i + 1]) <= cc.len()
{
    let h = cont(s[i + 1], b);
    assert forall|j: int| 0 <= j < h.len() implies #[trigger] cc[d + j] == h[j] by { if j == 0 {} else { assert(cc[d + j] == Cell::Tail); } }
}
pub proof fn lemma_op_run_pend(s: Seq<usize>, i: int, cc: Seq<Cell>, d: int, e0: int)
    requires op_run(s, i, cc, d, e0), d >= 0, s[i] == FLAG_MEMCPY || s[i] == FLAG_SKIP
    ensures same_run(cc, d, pend(s[i], s[i + 1] as nat)), d + s[i + 1] <= cc.len(), at(s, i + 2, cc, d + s[i + 1], e0)
{}
