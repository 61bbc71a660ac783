//@include iprog.rs
//@include pushinit.rs
// t does to memory what the cells c say; cut: keeps at the end may be missing
pub open spec fn isres(c: Seq<ICell>, t: Seq<usize>, cut: bool) -> bool {
    &&& iprog(t) && icl(t).len() <= c.len() && c.take(icl(t).len() as int) == icl(t)
    &&& forall|j: int| icl(t).len() <= j < c.len() ==> #[trigger] c[j] is Keep
    &&& !cut ==> icl(t) == c
}
// cc[0..d) has become the program t, cnt pending keeps or the pending bytes dat
pub open spec fn isst(cc: Seq<ICell>, d: int, t: Seq<usize>, cnt: nat, dat: Seq<u8>) -> bool {
    &&& iprog(t) && 0 <= d <= cc.len() <= usize::MAX && (cnt == 0 || dat.len() == 0)
    &&& cc.take(d) == icl(t) + ikeeps(cnt) + bsets(dat)
}
pub open spec fn fskip(t: Seq<usize>, cnt: nat) -> Seq<usize> { if cnt > 0 { t + seq![FLAG_INIT_SKIP, cnt as usize] } else { t } }
pub open spec fn fdat(t: Seq<usize>, dat: Seq<u8>) -> Seq<usize> { if dat.len() > 0 { t + iop(dat) } else { t } }
pub proof fn lemma_is_start(cc: Seq<ICell>)
    requires cc.len() <= usize::MAX
    ensures isst(cc, 0, seq![], 0, seq![])
{ lemma_iprog_empty(); assert(cc.take(0) =~= icl(seq![]) + ikeeps(0) + bsets(seq![])); }
pub proof fn lemma_is_len(cc: Seq<ICell>, d: int, t: Seq<usize>, cnt: nat, dat: Seq<u8>)
    requires isst(cc, d, t, cnt, dat)
    ensures icl(t).len() + cnt + dat.len() == d, 0 <= d <= cc.len() <= usize::MAX, cnt == 0 || dat.len() == 0
{ assert(cc.take(d).len() == d); }
pub proof fn lemma_is_fskip(cc: Seq<ICell>, d: int, t: Seq<usize>, cnt: nat, dat: Seq<u8>)
    requires isst(cc, d, t, cnt, dat), dat.len() == 0
    ensures isst(cc, d, fskip(t, cnt), 0, seq![]), isst(cc, d, fskip(t, cnt), 0, dat)
{
    lemma_is_len(cc, d, t, cnt, dat);
    assert(dat =~= seq![]);
    if cnt > 0 { lemma_iprog_skip(cnt as usize); lemma_iprog_cat(t, seq![FLAG_INIT_SKIP, cnt as usize]); }
    assert(icl(t) + ikeeps(cnt) + bsets(dat) =~= icl(fskip(t, cnt)) + ikeeps(0) + bsets(seq![]));
}
pub proof fn lemma_is_fdat(cc: Seq<ICell>, d: int, t: Seq<usize>, cnt: nat, dat: Seq<u8>)
    requires isst(cc, d, t, cnt, dat)
    ensures isst(cc, d, fdat(t, dat), cnt, seq![])
{
    lemma_is_len(cc, d, t, cnt, dat);
    if dat.len() > 0 { lemma_iprog_init(dat); lemma_iprog_cat(t, iop(dat)); }
    assert(icl(t) + ikeeps(cnt) + bsets(dat) =~= icl(fdat(t, dat)) + ikeeps(cnt) + bsets(seq![]));
}
pub proof fn lemma_take_cat(cc: Seq<ICell>, d: int, a: Seq<ICell>, h: Seq<ICell>)
    requires 0 <= d, cc.take(d) == a, isame(cc, d, h), d + h.len() <= cc.len(), d <= cc.len()
    ensures cc.take(d + h.len()) == a + h
{
    let x = cc.take(d + h.len());
    assert(a.len() == d);
    assert forall|j: int| 0 <= j < x.len() implies x[j] == (a + h)[j] by { if j < d { assert(cc.take(d)[j] == x[j]); } else { assert(cc[d + (j - d)] == h[j - d]); } }
    assert(x =~= a + h);
}
// INIT of the bytes w
pub proof fn lemma_is_init(cc: Seq<ICell>, d: int, t: Seq<usize>, cnt: nat, dat: Seq<u8>, w: Seq<usize>)
    requires isst(cc, d, t, cnt, dat), isame(cc, d, isets(w)), d + w.len() <= cc.len()
    ensures isst(cc, d + w.len(), fskip(t, cnt), 0, dat + to_bytes(w))
{
    lemma_is_len(cc, d, t, cnt, dat);
    let t1 = fskip(t, cnt);
    if cnt > 0 { lemma_is_fskip(cc, d, t, cnt, dat); } 
    assert(isst(cc, d, t1, 0, dat));
    let a = icl(t1) + ikeeps(0) + bsets(dat);
    lemma_take_cat(cc, d, a, isets(w));
    assert(a + isets(w) =~= icl(t1) + ikeeps(0) + bsets(dat + to_bytes(w)));
}
pub proof fn lemma_is_skip(cc: Seq<ICell>, d: int, t: Seq<usize>, cnt: nat, n: nat)
    requires isst(cc, d, t, cnt, seq![]), isame(cc, d, ikeeps(n)), d + n <= cc.len()
    ensures isst(cc, d + n, t, cnt + n, seq![])
{
    let a = icl(t) + ikeeps(cnt) + bsets(seq![]);
    lemma_take_cat(cc, d, a, ikeeps(n));
    assert(a + ikeeps(n) =~= icl(t) + ikeeps(cnt + n) + bsets(seq![]));
}
pub proof fn lemma_is_prog(cc: Seq<ICell>, d: int, t: Seq<usize>, cnt: nat, h: Seq<ICell>, u: Seq<usize>)
    requires isst(cc, d, t, cnt, seq![]), isame(cc, d, h), d + h.len() <= cc.len(), iprog(u), icl(u) == h
    ensures isst(cc, d + h.len(), fskip(t, cnt) + u, 0, seq![])
{
    lemma_is_fskip(cc, d, t, cnt, seq![]);
    let t1 = fskip(t, cnt);
    let a = icl(t1) + ikeeps(0) + bsets(seq![]);
    lemma_is_len(cc, d, t1, 0, seq![]);
    lemma_take_cat(cc, d, a, h);
    lemma_iprog_cat(t1, u);
    assert(a + h =~= icl(t1 + u) + ikeeps(0) + bsets(seq![]));
}
pub proof fn lemma_is_rep(cc: Seq<ICell>, d: int, t: Seq<usize>, cnt: nat, b: Seq<ICell>, n: usize, tb: Seq<usize>)
    requires isst(cc, d, t, cnt, seq![]), isame(cc, d, irep(b, n as nat)), d + irep(b, n as nat).len() <= cc.len(), iprog(tb), icl(tb) == b
    ensures ({ let d2 = d + irep(b, n as nat).len(); let m = (tb[1] * n) as nat;
        &&& tb.len() == 2 && tb[0] == FLAG_INIT_SKIP ==> m <= usize::MAX && cnt + m <= usize::MAX && isst(cc, d2, t, cnt + m, seq![])
        &&& tb.len() == 0 ==> isst(cc, d2, t, cnt, seq![])
        &&& isst(cc, d2, fskip(t, cnt) + inest(n, tb), 0, seq![]) })
{
    lemma_is_len(cc, d, t, cnt, seq![]);
    lemma_irep_mul(b, n as nat);
    lemma_iprog_nest(n, tb);
    lemma_is_prog(cc, d, t, cnt, irep(b, n as nat), inest(n, tb));
    if tb.len() == 2 && tb[0] == FLAG_INIT_SKIP {
        lemma_iprog_small(tb);
        let m = (tb[1] * n) as nat;
        assert(0 <= tb[1] * n) by (nonlinear_arith);
        lemma_irep_keep(tb[1] as nat, n as nat);
        lemma_is_skip(cc, d, t, cnt, m);
    } else if tb.len() == 0 {
        lemma_iprog_small(tb);
        assert(b.len() * (n as nat) == 0) by (nonlinear_arith) requires b.len() == 0;
        assert(irep(b, n as nat) =~= ikeeps(0));
        lemma_is_skip(cc, d, t, cnt, 0);
    }
}
pub proof fn lemma_is_end(cc: Seq<ICell>, t: Seq<usize>, cnt: nat, dat: Seq<u8>)
    requires isst(cc, cc.len() as int, t, cnt, dat)
    ensures isres(cc, fdat(fskip(t, cnt), dat), false), isres(cc, fdat(fskip(t, cnt), dat), true), dat.len() == 0 ==> isres(cc, t, true)
{
    lemma_is_len(cc, cc.len() as int, t, cnt, dat);
    assert(cc.take(cc.len() as int) =~= cc);
    if dat.len() == 0 { lemma_is_fskip(cc, cc.len() as int, t, cnt, dat); assert(icl(t) =~= cc.take(icl(t).len() as int)); }
    let t1 = fskip(t, cnt);
    lemma_is_fdat(cc, cc.len() as int, t1, 0, dat);
    let f = fdat(t1, dat);
    assert(icl(f) + ikeeps(0) + bsets(seq![]) =~= icl(f));
    if dat.len() == 0 {
        assert forall|j: int| icl(t).len() <= j < cc.len() implies #[trigger] cc[j] is Keep by { assert(cc[j] == (icl(t) + ikeeps(cnt) + bsets(dat))[j]); }
    }
}

//@fn simplifyInitBlock file=typelib/memory_layout.cc class=MemoryLayout params=it,end,result throws=yes impl=impl~MemoryLayout
//@spec
    requires it.v == end.v, it.i <= end.i, end.i == end.v@.len(), iblk(it.v@, it.i as int) is Some, ibe(it.v@, it.i as int) < it.v@.len()
    ensures r is Ok, r->Ok_0.v == it.v, r->Ok_0.i == ibe(it.v@, it.i as int), final(result).ops@ == old(result).ops@,
        starts(old(result).init_ops@, final(result).init_ops@),
        isres(ibc(it.v@, it.i as int), rest(old(result).init_ops@, final(result).init_ops@), false)
    decreases end.i - it.i, 1int
//@at entry
    proof { lemma_iblk_end(it.v@, it.i as int); }
//@end
//@fn simplifyInit_ops name=simplifyInit file=typelib/memory_layout.cc class=MemoryLayout params=it,end,simplified,shave_last_skip throws=yes impl=impl~MemoryLayout
//@spec
    requires it.v == end.v, it.i <= end.i, end.i == end.v@.len(), iblk(it.v@, it.i as int) is Some
    ensures r is Ok, r->Ok_0.v == it.v, r->Ok_0.i == ibe(it.v@, it.i as int), final(simplified).ops@ == old(simplified).ops@,
        starts(old(simplified).init_ops@, final(simplified).init_ops@),
        isres(ibc(it.v@, it.i as int), rest(old(simplified).init_ops@, final(simplified).init_ops@), shave_last_skip && ibe(it.v@, it.i as int) == it.v@.len())
    decreases end.i - it.i, 0int
//@hide iblk isb irep iat iop_rep iprog icl isst isame ihead inext ihlen isets ikeeps icont isres
//@at entry
    let ghost s = it.v@; let ghost b0 = it.i as int; let ghost cc = ibc(s, b0); let ghost e0 = ibe(s, b0); let ghost p0 = simplified.init_ops@;
    let ghost mut d: int = 0; let ghost mut t: Seq<usize> = seq![];
    proof { lemma_iat_start(s, b0); lemma_iblk_end(s, b0); lemma_is_start(cc); assert(p0 + t =~= p0); }
//@loop 1
    invariant it.v == end.v, b0 <= it.i <= end.i, iat(s, it.i as int, cc, d, e0), simplified.init_ops@ == p0 + t, simplified.ops@ == old(simplified).ops@,
        isst(cc, d, t, current_op_count as nat, current_init_data@), 0 <= d
    decreases end.i - it.i
//@at loop1.begin
    let ghost i0 = it.i as int; let ghost d0 = d; let ghost t0 = t; let ghost c0 = current_op_count as nat; let ghost dat0 = current_init_data@;
    let ghost t1 = fskip(t0, c0); let ghost t2 = fdat(t0, dat0);
    proof {
        axiom_vec_words(*it.v);
        lemma_is_len(cc, d0, t0, c0, dat0);
        lemma_starts(p0, t0); lemma_starts(p0, t1); lemma_starts(p0, t2); lemma_starts(p0, fdat(t1, dat0));
        assert(p0 + t0 + seq![FLAG_INIT_SKIP, c0 as usize] =~= p0 + (t0 + seq![FLAG_INIT_SKIP, c0 as usize]));
        assert(p0 + t0 + iop(dat0) =~= p0 + (t0 + iop(dat0)));
        if s[i0] == FLAG_INIT_END { lemma_iat_end(s, i0, cc, d0, e0); lemma_is_end(cc, t0, c0, dat0); lemma_isres_any(cc, fdat(t1, dat0), shave_last_skip && e0 == s.len()); }
        else { lemma_iat_op(s, i0, cc, d0, e0); }
    }
    let ghost x = s[i0 + 1]; let ghost b = ibc(s, i0 + 2); let ghost e1 = ibe(s, i0 + 2);
    let ghost w = s.subrange(i0 + 2, i0 + 2 + x);
    proof {
        if s[i0] == FLAG_INIT_REPEAT { lemma_iat_rep(s, i0, cc, d0, e0); lemma_rep_use(s, i0, cc, d0, e0, b, e1); lemma_is_fdat(cc, d0, t0, c0, dat0); }
        else if s[i0] != FLAG_INIT_END {
            lemma_iat_head(s, i0, cc, d0, e0); lemma_head_use(s, i0);
            if s[i0] == FLAG_INIT { lemma_is_init(cc, d0, t0, c0, dat0, w); t = t1; d = d0 + w.len(); }
            else {
                lemma_is_fdat(cc, d0, t0, c0, dat0);
                if s[i0] == FLAG_INIT_SKIP { lemma_is_skip(cc, d0, t2, c0, x as nat); t = t2; d = d0 + x; }
                else { lemma_iprog_cont(x); lemma_is_prog(cc, d0, t2, c0, icont(x), seq![FLAG_INIT_CONTAINER, x]); t = fskip(t2, c0) + seq![FLAG_INIT_CONTAINER, x]; d = d0 + csize(x); }
            }
        }
        assert(p0 + t2 + seq![FLAG_INIT_SKIP, c0 as usize] =~= p0 + (t2 + seq![FLAG_INIT_SKIP, c0 as usize]));
    }
    let ghost t3 = fskip(t2, c0);
    proof { assert(p0 + t3 + seq![FLAG_INIT_CONTAINER, x] =~= p0 + (t3 + seq![FLAG_INIT_CONTAINER, x])); }
//@at call:simplifyInitBlock#1.before
    let ghost q = simplified.init_ops@;
    proof { assert(current_init_data@ =~= seq![]); assert(q =~= p0 + (t3 + seq![FLAG_INIT_REPEAT, x])); }
//@at call:simplifyInitBlock#1.after
    let ghost tb = rest(q, simplified.init_ops@);
    proof {
        lemma_starts2(q, simplified.init_ops@);
        lemma_isres_full(b, tb);
        lemma_is_rep(cc, d0, t2, c0, b, x, tb);
        assert(q.len() == p0.len() + t3.len() + 2);
        assert(simplified.init_ops@ =~= p0 + t3 + seq![FLAG_INIT_REPEAT, x] + tb);
        d = d0 + irep(b, x as nat).len();
        if tb.len() == 2 { assert(simplified.init_ops@[q.len() as int] == tb[0] && simplified.init_ops@[q.len() as int + 1] == tb[1]); }
        if tb.len() == 2 && tb[0] == FLAG_INIT_SKIP { t = t2; } else if tb.len() == 0 { t = t2; } else { t = t3 + inest(x, tb); }
        assert(simplified.init_ops@.take(q.len() - 2) =~= p0 + t3);
        if c0 > 0 { assert(simplified.init_ops@.take(q.len() - 4) =~= p0 + t2); }
    }
//@at call:pushInitEnd#1.after
    proof { assert(simplified.init_ops@ =~= p0 + t); }
//@at loop1.end
    proof { assert(s[i0] != FLAG_INIT ==> current_init_data@ =~= seq![]); }
//@at loop1.after
    proof {
        lemma_iat_end(s, it.i as int, cc, d, e0);
        let c = current_op_count as nat; let dat = current_init_data@;
        lemma_is_len(cc, d, t, c, dat);
        lemma_is_end(cc, t, c, dat);
        let f = fdat(fskip(t, c), dat);
        lemma_starts(p0, f); lemma_starts(p0, t);
        lemma_isres_any(cc, f, shave_last_skip && e0 == s.len());
        assert(it.i == s.len() && e0 == it.i);
        assert(p0 + t + seq![FLAG_INIT_SKIP, c as usize] =~= p0 + (t + seq![FLAG_INIT_SKIP, c as usize]));
        assert(p0 + t + iop(dat) =~= p0 + (t + iop(dat)));
    }
//@end
pub proof fn lemma_isres_any(c: Seq<ICell>, t: Seq<usize>, cut: bool)
    requires isres(c, t, false)
    ensures isres(c, t, cut)
{ assert(c.take(c.len() as int) =~= c); }
pub proof fn lemma_isres_full(c: Seq<ICell>, t: Seq<usize>)
    requires isres(c, t, false)
    ensures iprog(t), icl(t) == c
{}
pub proof fn lemma_rep_use(s: Seq<usize>, i: int, cc: Seq<ICell>, d: int, e0: int, b: Seq<ICell>, e1: int)
    requires iop_rep(s, i, cc, d, e0, b, e1), d >= 0, i >= 0
    ensures i + 2 <= e1 < s.len(), s[e1] == FLAG_INIT_END, iblk(s, i + 2) == Some((b, e1)), isame(cc, d, irep(b, s[i + 1] as nat)),
        d + irep(b, s[i + 1] as nat).len() <= cc.len(), iat(s, e1 + 1, cc, d + irep(b, s[i + 1] as nat).len(), e0)
{}
pub proof fn lemma_head_use(s: Seq<usize>, i: int)
    ensures s[i] == FLAG_INIT ==> ihead(s, i) == isets(s.subrange(i + 2, i + 2 + s[i + 1])) && inext(s, i) == i + 2 + s[i + 1] && ihlen(s, i) == s[i + 1],
        s[i] == FLAG_INIT_SKIP ==> ihead(s, i) == ikeeps(s[i + 1] as nat) && inext(s, i) == i + 2 && ihlen(s, i) == s[i + 1],
        s[i] == FLAG_INIT_CONTAINER ==> ihead(s, i) == icont(s[i + 1]) && inext(s, i) == i + 2 && ihlen(s, i) == csize(s[i + 1])
{}
