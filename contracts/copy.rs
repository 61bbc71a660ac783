//@include frame.rs
// es are equal copies of src under every element layout of container type p
pub open spec fn copied(p: usize, src: Seq<MV>, es: Seq<MV>) -> bool {
    &&& es.len() == src.len()
    &&& forall|e: Seq<Cell>| #[trigger] lay(p, e) && (forall|i: int| 0 <= i < src.len() ==> wf(e, #[trigger] src[i], 0)) ==>
            forall|i: int| 0 <= i < es.len() ==> wf(e, #[trigger] es[i], 0) && eqc(e, es[i], 0, src[i], 0, e.len() as int)
}
impl ContRef {
    #[verifier::external_body]
    pub fn copy(self, m: &mut Mem, o: usize, p: CPtr)
        requires has(old(m)@, o as int, self.h()), has(p.m(), p.o(), self.h())
        ensures ({ let es = final(m)@.c[o as int].e;
            cont_changed(old(m)@, final(m)@, o as int, self.h(), es) && copied(self.h(), p.m().c[p.o()].e, es) })
    { unimplemented!() }
}
pub open spec fn cst(cc: Seq<Cell>, m0: MV, m: MV, o: int, mi: MV, i0: int, d: int) -> bool {
    wf(cc, m, o) && shp(m0, m) && frm(m0, m, o, o + d) && wf(cc, mi, i0) && eqc(cc, m, o, mi, i0, d) && 0 <= d <= cc.len()
}
pub proof fn lemma_c_start(cc: Seq<Cell>, m: MV, o: int, mi: MV, i0: int)
    requires wf(cc, m, o), wf(cc, mi, i0)
    ensures cst(cc, m, m, o, mi, i0, 0)
{}
pub proof fn lemma_c_len(cc: Seq<Cell>, m0: MV, m: MV, o: int, mi: MV, i0: int, d: int)
    requires cst(cc, m0, m, o, mi, i0, d)
    ensures m.b.len() == m0.b.len(), o + cc.len() <= m.b.len(), i0 + cc.len() <= mi.b.len()
{}
pub proof fn lemma_c_elem(cc: Seq<Cell>, m0: MV, m: MV, o: int, mi: MV, i0: int, d: int, b: Seq<Cell>)
    requires cst(cc, m0, m, o, mi, i0, d), same_run(cc, d, b)
    ensures wf(b, m, o + d), wf(b, mi, i0 + d), o + d + b.len() <= m.b.len(), i0 + d + b.len() <= mi.b.len(), m.b.len() == m0.b.len()
{ lemma_wf_sub(cc, b, m, o, d); lemma_wf_sub(cc, b, mi, i0, d); }
pub proof fn lemma_c_part(cc: Seq<Cell>, m0: MV, m: MV, m2: MV, o: int, mi: MV, i0: int, d: int, b: Seq<Cell>)
    requires cst(cc, m0, m, o, mi, i0, d), same_run(cc, d, b), cst(b, m, m2, o + d, mi, i0 + d, b.len() as int)
    ensures cst(cc, m0, m2, o, mi, i0, d + b.len())
{
    lemma_wf_merge(cc, m, m2, o, d, b);
    lemma_frm_trans(m0, m, m2, o, o + d, o + d + b.len());
    assert forall|j: int| 0 <= j < d + b.len() && j < cc.len() implies celleq(#[trigger] cc[j], m2, o + j, mi, i0 + j) by {
        assert(cellok(cc[j], m, o + j));
        if j < d { assert(m2.b[o + j] == m.b[o + j]); assert(cc[j] is Cont ==> m2.c[o + j] == m.c[o + j]); assert(celleq(cc[j], m, o + j, mi, i0 + j)); }
        else { assert(cc[d + (j - d)] == b[j - d]); assert(celleq(b[j - d], m2, o + d + (j - d), mi, i0 + d + (j - d))); }
    }
}
pub proof fn lemma_c_data(cc: Seq<Cell>, m0: MV, m: MV, o: int, mi: MV, i0: int, d: int, n: nat)
    requires cst(cc, m0, m, o, mi, i0, d), same_run(cc, d, datas(n))
    ensures n > 0 ==> free(m, o + d, n as int), o + d + n <= m.b.len(), n > 0 ==> free(mi, i0 + d, n as int), i0 + d + n <= mi.b.len(),
        forall|m2: MV| #[trigger] m2.b == splice(m.b, o + d, mi.b.subrange(i0 + d, i0 + d + n)) && m2.c == m.c ==> cst(cc, m0, m2, o, mi, i0, d + n)
{
    let b = datas(n);
    assert forall|j: int| 0 <= j < n implies (#[trigger] cc[d + j] is Data || cc[d + j] is Pad) by { assert(cc[d + j] == b[j]); }
    lemma_free_run(cc, m, o, d, n as int);
    lemma_free_run(cc, mi, i0, d, n as int);
    lemma_wf_sub(cc, b, m, o, d); lemma_wf_sub(cc, b, mi, i0, d);
    assert forall|m2: MV| #[trigger] m2.b == splice(m.b, o + d, mi.b.subrange(i0 + d, i0 + d + n)) && m2.c == m.c implies cst(cc, m0, m2, o, mi, i0, d + n) by {
        lemma_wf_same(b, m, m2, o + d);
        lemma_c_part(cc, m0, m, m2, o, mi, i0, d, b);
    }
}
pub proof fn lemma_c_skip(cc: Seq<Cell>, m0: MV, m: MV, o: int, mi: MV, i0: int, d: int, n: nat)
    requires cst(cc, m0, m, o, mi, i0, d), same_run(cc, d, pads(n))
    ensures cst(cc, m0, m, o, mi, i0, d + n), o + d + n <= m.b.len(), i0 + d + n <= mi.b.len()
{
    let b = pads(n);
    lemma_wf_sub(cc, b, m, o, d); lemma_wf_sub(cc, b, mi, i0, d);
    lemma_c_part(cc, m0, m, m, o, mi, i0, d, b);
}
pub proof fn lemma_c_cont(cc: Seq<Cell>, m0: MV, m: MV, o: int, mi: MV, i0: int, d: int, p: usize, e: Seq<Cell>)
    requires cst(cc, m0, m, o, mi, i0, d), same_run(cc, d, cont(p, e)), is_cont(p)
    ensures has(m, o + d, p), o + d + csize(p) <= m.b.len(), has(mi, i0 + d, p), i0 + d + csize(p) <= mi.b.len(),
        forall|m2: MV| #[trigger] cont_changed(m, m2, o + d, p, m2.c[o + d].e) && copied(p, mi.c[i0 + d].e, m2.c[o + d].e) ==> cst(cc, m0, m2, o, mi, i0, d + csize(p))
{
    axiom_cont(p);
    let b = cont(p, e);
    assert(cc[d + 0] == cont(p, e)[0]); assert(cellok(cc[d], m, o + d)); assert(cellok(cc[d], mi, i0 + d));
    lemma_wf_sub(cc, b, m, o, d); lemma_wf_sub(cc, b, mi, i0, d);
    assert(b[0] == Cell::Cont(p, e));
    assert(lay(p, e));
    assert forall|m2: MV| #[trigger] cont_changed(m, m2, o + d, p, m2.c[o + d].e) && copied(p, mi.c[i0 + d].e, m2.c[o + d].e) implies cst(cc, m0, m2, o, mi, i0, d + csize(p)) by {
        let es = m2.c[o + d].e;
        lemma_wf_cont(b, m, m2, o + d, 0, p, e, es);
        assert forall|j: int| 0 <= j < b.len() implies celleq(#[trigger] b[j], m2, o + d + j, mi, i0 + d + j) by { }
        lemma_c_part(cc, m0, m, m2, o, mi, i0, d, b);
    }
}
//@fn vcopy file=typelib/value_ops.cc name=copy static=yes params=out_buffer,in_buffer,begin,end throws=yes filter=Typelib::ValueOps
//@locals it:OpIt<'a>
//@spec
    requires begin.v == end.v, begin.i <= end.i, end.i == end.v@.len(), blk(begin.v@, begin.i as int) is Some,
        old(mem_out_buffer)@.b.len() <= usize::MAX, wf(bc(begin.v@, begin.i as int), old(mem_out_buffer)@, out_buffer as int),
        old(mem_in_buffer)@.b.len() <= usize::MAX, wf(bc(begin.v@, begin.i as int), old(mem_in_buffer)@, in_buffer as int)
    ensures r is Ok, final(mem_in_buffer)@ == old(mem_in_buffer)@,
        r->Ok_0.2.v == begin.v, r->Ok_0.2.i == be(begin.v@, begin.i as int),
        r->Ok_0.0 == out_buffer + bc(begin.v@, begin.i as int).len(), r->Ok_0.1 == in_buffer + bc(begin.v@, begin.i as int).len(),
        cst(bc(begin.v@, begin.i as int), old(mem_out_buffer)@, final(mem_out_buffer)@, out_buffer as int, old(mem_in_buffer)@, in_buffer as int, bc(begin.v@, begin.i as int).len() as int)
    decreases end.i - begin.i
//@hide blk sb rep at wf free cellok shp frm cst op_run cont_changed eqc celleq copied
//@at entry
    let ghost s = begin.v@; let ghost cc = bc(s, begin.i as int); let ghost e0 = be(s, begin.i as int); let ghost m0 = mem_out_buffer@; let ghost mi = mem_in_buffer@;
    let ghost o0 = out_buffer as int; let ghost i0 = in_buffer as int;
    proof { lemma_at_start(s, begin.i as int); lemma_c_start(cc, m0, o0, mi, i0); }
//@loop 1
    invariant it.v == begin.v, begin.i <= it.i <= end.i, o0 <= out_buffer, at(s, it.i as int, cc, out_buffer - o0, e0), in_buffer - i0 == out_buffer - o0,
        mem_in_buffer@ == mi, cst(cc, m0, mem_out_buffer@, o0, mi, i0, out_buffer - o0)
    decreases end.i - it.i
//@at loop1.begin
    let ghost d0 = out_buffer - o0; let ghost m1 = mem_out_buffer@;
    proof { lemma_at_op(s, it.i as int, cc, d0, e0); lemma_c_len(cc, m0, m1, o0, mi, i0, d0); }
//@at loop1.after
    proof { lemma_at_end(s, it.i as int, cc, out_buffer - o0, e0); }
//@at case:FLAG_MEMCPY.begin
    let ghost n = s[it.i + 1] as nat;
    proof { lemma_at_run(s, it.i as int, cc, d0, e0); lemma_op_run_data(s, it.i as int, cc, d0, e0); lemma_c_data(cc, m0, m1, o0, mi, i0, d0, n); }
//@at case:FLAG_SKIP.begin
    let ghost n = s[it.i + 1] as nat;
    proof { lemma_at_run(s, it.i as int, cc, d0, e0); lemma_op_run_data(s, it.i as int, cc, d0, e0); lemma_c_skip(cc, m0, m1, o0, mi, i0, d0, n); }
//@at case:FLAG_ARRAY.begin
    let ghost n = s[it.i + 1] as nat; let ghost b = bc(s, it.i + 2); let ghost e1 = be(s, it.i + 2);
    proof { lemma_at_array(s, it.i as int, cc, d0, e0); reveal_with_fuel(rep, 1); }
//@loop 2
    invariant i <= n, out_buffer == o0 + d0 + rep(b, i as nat).len(), in_buffer - i0 == out_buffer - o0,
        n == 0 || i > 0 ==> it.v == begin.v && it.i == e1,
        mem_in_buffer@ == mi, cst(cc, m0, mem_out_buffer@, o0, mi, i0, out_buffer - o0)
    decreases n - i
//@at loop2.begin
    let ghost m2 = mem_out_buffer@; let ghost d2 = out_buffer - o0;
    proof { lemma_elem(cc, d0, b, i as nat, n); lemma_c_elem(cc, m0, m2, o0, mi, i0, d2, b); }
//@at call:vcopy#1.after
    proof { lemma_c_part(cc, m0, m2, mem_out_buffer@, o0, mi, i0, d2, b); }
//@at case:FLAG_CONTAINER.begin
    let ghost p = s[it.i + 1]; let ghost b = bc(s, it.i + 2); let ghost e1 = be(s, it.i + 2);
    proof { lemma_at_cont(s, it.i as int, cc, d0, e0); lemma_op_cont_run(s, it.i as int, cc, d0, e0, b, e1); lemma_skip_operand(s, it.i + 1); lemma_c_cont(cc, m0, m1, o0, mi, i0, d0, p, b); }
//@end
