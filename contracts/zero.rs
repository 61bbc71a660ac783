//@include frame.rs
pub open spec fn zeroed(c: Seq<Cell>, m: MV, o: int, d: int) -> bool {
    forall|j: int| 0 <= j < d && j < c.len() ==> (match #[trigger] c[j] { Cell::Data => m.b[o + j] == 0, Cell::Pad => m.b[o + j] == 0, Cell::Tail => true, Cell::Cont(p, e) => m.c[o + j].e.len() == 0 })
}
pub open spec fn zst(cc: Seq<Cell>, m0: MV, m: MV, o: int, d: int) -> bool {
    wf(cc, m, o) && shp(m0, m) && frm(m0, m, o, o + d) && zeroed(cc, m, o, d) && 0 <= d <= cc.len()
}
pub proof fn lemma_z_start(cc: Seq<Cell>, m: MV, o: int)
    requires wf(cc, m, o)
    ensures zst(cc, m, m, o, 0)
{}
pub proof fn lemma_z_len(cc: Seq<Cell>, m0: MV, m: MV, o: int, d: int)
    requires zst(cc, m0, m, o, d)
    ensures m.b.len() == m0.b.len(), o + cc.len() <= m.b.len()
{}
pub proof fn lemma_z_part(cc: Seq<Cell>, m0: MV, m: MV, m2: MV, o: int, d: int, b: Seq<Cell>)
    requires zst(cc, m0, m, o, d), same_run(cc, d, b), zst(b, m, m2, o + d, b.len() as int)
    ensures zst(cc, m0, m2, o, d + b.len())
{
    lemma_wf_merge(cc, m, m2, o, d, b);
    lemma_frm_trans(m0, m, m2, o, o + d, o + d + b.len());
    assert forall|j: int| 0 <= j < d + b.len() && j < cc.len() implies (match #[trigger] cc[j] { Cell::Data => m2.b[o + j] == 0, Cell::Pad => m2.b[o + j] == 0, Cell::Tail => true, Cell::Cont(p, e) => m2.c[o + j].e.len() == 0 }) by {
        assert(cellok(cc[j], m, o + j));
        if j < d { assert(m2.b[o + j] == m.b[o + j]); assert(cc[j] is Cont ==> m2.c[o + j] == m.c[o + j]); }
        else { assert(cc[d + (j - d)] == b[j - d]); }
    }
}
pub proof fn lemma_z_elem(cc: Seq<Cell>, m0: MV, m: MV, o: int, d: int, b: Seq<Cell>)
    requires zst(cc, m0, m, o, d), same_run(cc, d, b)
    ensures wf(b, m, o + d), o + d + b.len() <= m.b.len(), m.b.len() == m0.b.len()
{ lemma_wf_sub(cc, b, m, o, d); }
pub proof fn lemma_z_raw(cc: Seq<Cell>, m0: MV, m: MV, o: int, d: int, n: nat, b: Seq<Cell>)
    requires zst(cc, m0, m, o, d), same_run(cc, d, b), b == datas(n) || b == pads(n)
    ensures n > 0 ==> free(m, o + d, n as int), o + d + n <= m.b.len(),
        forall|m2: MV| #[trigger] m2.b == splice(m.b, o + d, Seq::new(n, |i: int| 0u8)) && m2.c == m.c ==> zst(cc, m0, m2, o, d + n)
{
    assert forall|j: int| 0 <= j < n implies (#[trigger] cc[d + j] is Data || cc[d + j] is Pad) by { assert(cc[d + j] == b[j]); }
    lemma_free_run(cc, m, o, d, n as int);
    lemma_wf_sub(cc, b, m, o, d);
    assert forall|m2: MV| #[trigger] m2.b == splice(m.b, o + d, Seq::new(n, |i: int| 0u8)) && m2.c == m.c implies zst(cc, m0, m2, o, d + n) by {
        lemma_wf_same(b, m, m2, o + d);
        lemma_z_part(cc, m0, m, m2, o, d, b);
    }
}
pub proof fn lemma_z_cont(cc: Seq<Cell>, m0: MV, m: MV, o: int, d: int, p: usize, e: Seq<Cell>)
    requires zst(cc, m0, m, o, d), same_run(cc, d, cont(p, e)), is_cont(p)
    ensures has(m, o + d, p), o + d + csize(p) <= m.b.len(),
        forall|m2: MV| #[trigger] cont_changed(m, m2, o + d, p, Seq::<MV>::empty()) ==> zst(cc, m0, m2, o, d + csize(p))
{
    axiom_cont(p);
    let b = cont(p, e);
    assert(cc[d + 0] == cont(p, e)[0]); assert(cellok(cc[d], m, o + d));
    lemma_wf_sub(cc, b, m, o, d);
    assert(b[0] == Cell::Cont(p, e));
    assert forall|m2: MV| #[trigger] cont_changed(m, m2, o + d, p, Seq::<MV>::empty()) implies zst(cc, m0, m2, o, d + csize(p)) by {
        lemma_wf_cont(b, m, m2, o + d, 0, p, e, Seq::<MV>::empty());
        lemma_z_part(cc, m0, m, m2, o, d, b);
    }
}
//@fn vzero file=typelib/value_ops.cc name=zero static=yes params=buffer,begin,end throws=yes filter=Typelib::ValueOps
//@locals it:OpIt<'a>
//@spec
    requires begin.v == end.v, begin.i <= end.i, end.i == end.v@.len(), blk(begin.v@, begin.i as int) is Some,
        old(mem_buffer)@.b.len() <= usize::MAX, wf(bc(begin.v@, begin.i as int), old(mem_buffer)@, buffer as int)
    ensures r is Ok, r->Ok_0.1.v == begin.v, r->Ok_0.1.i == be(begin.v@, begin.i as int), r->Ok_0.0 == buffer + bc(begin.v@, begin.i as int).len(),
        zst(bc(begin.v@, begin.i as int), old(mem_buffer)@, final(mem_buffer)@, buffer as int, bc(begin.v@, begin.i as int).len() as int)
    decreases end.i - begin.i
//@hide blk sb rep at wf free cellok shp frm zst op_run cont_changed zeroed
//@at entry
    let ghost s = begin.v@; let ghost cc = bc(s, begin.i as int); let ghost e0 = be(s, begin.i as int); let ghost m0 = mem_buffer@;
    let ghost o0 = buffer as int;
    proof { lemma_at_start(s, begin.i as int); lemma_z_start(cc, m0, o0); }
//@loop 1
    invariant it.v == begin.v, begin.i <= it.i <= end.i, o0 <= buffer, at(s, it.i as int, cc, buffer - o0, e0),
        zst(cc, m0, mem_buffer@, o0, buffer - o0)
    decreases end.i - it.i
//@at loop1.begin
    let ghost d0 = buffer - o0; let ghost m1 = mem_buffer@;
    proof { lemma_at_op(s, it.i as int, cc, d0, e0); lemma_z_len(cc, m0, m1, o0, d0); }
//@at loop1.after
    proof { lemma_at_end(s, it.i as int, cc, buffer - o0, e0); }
//@at case:FLAG_MEMCPY.begin
    let ghost n = s[it.i + 1] as nat;
    proof { lemma_at_run(s, it.i as int, cc, d0, e0); lemma_op_run_data(s, it.i as int, cc, d0, e0);
            lemma_z_raw(cc, m0, m1, o0, d0, n, if s[it.i as int] == FLAG_MEMCPY { datas(n) } else { pads(n) }); }
//@at case:FLAG_ARRAY.begin
    let ghost n = s[it.i + 1] as nat; let ghost b = bc(s, it.i + 2); let ghost e1 = be(s, it.i + 2);
    proof { lemma_at_array(s, it.i as int, cc, d0, e0); reveal_with_fuel(rep, 1); }
//@loop 2
    invariant i <= n, buffer == o0 + d0 + rep(b, i as nat).len(), 
        n == 0 || i > 0 ==> it.v == begin.v && it.i == e1,
        zst(cc, m0, mem_buffer@, o0, buffer - o0)
    decreases n - i
//@at loop2.begin
    let ghost m2 = mem_buffer@; let ghost d2 = buffer - o0;
    proof { lemma_elem(cc, d0, b, i as nat, n); lemma_z_elem(cc, m0, m2, o0, d2, b); }
//@at call:vzero#1.after
    proof { lemma_z_part(cc, m0, m2, mem_buffer@, o0, d2, b); }
//@at case:FLAG_CONTAINER.begin
    let ghost p = s[it.i + 1]; let ghost b = bc(s, it.i + 2); let ghost e1 = be(s, it.i + 2);
    proof { lemma_at_cont(s, it.i as int, cc, d0, e0); lemma_op_cont_run(s, it.i as int, cc, d0, e0, b, e1); lemma_z_cont(cc, m0, m1, o0, d0, p, b); }
//@end
