//@include frame.rs
// equality of the elements of two containers of type p, under every element layout of p
pub open spec fn elems_eq(e: Seq<Cell>, a: Seq<MV>, b: Seq<MV>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> eqc(e, #[trigger] a[i], 0, b[i], 0, e.len() as int)
}
impl ContRef {
    #[verifier::external_body]
    pub fn compare(self, p: CPtr, q: CPtr) -> (r: bool)
        requires has(p.m(), p.o(), self.h()), has(q.m(), q.o(), self.h())
        ensures forall|e: Seq<Cell>| #[trigger] lay(self.h(), e)
            && (forall|i: int| 0 <= i < p.m().c[p.o()].e.len() ==> wf(e, #[trigger] p.m().c[p.o()].e[i], 0))
            && (forall|i: int| 0 <= i < q.m().c[q.o()].e.len() ==> wf(e, #[trigger] q.m().c[q.o()].e[i], 0))
            ==> r == elems_eq(e, p.m().c[p.o()].e, q.m().c[q.o()].e)
    { unimplemented!() }
}
pub open spec fn est(cc: Seq<Cell>, m: MV, o: int, mi: MV, i0: int, d: int) -> bool {
    wf(cc, m, o) && wf(cc, mi, i0) && eqc(cc, m, o, mi, i0, d) && 0 <= d <= cc.len()
}
pub proof fn lemma_e_start(cc: Seq<Cell>, m: MV, o: int, mi: MV, i0: int)
    requires wf(cc, m, o), wf(cc, mi, i0)
    ensures est(cc, m, o, mi, i0, 0)
{}
pub proof fn lemma_e_end(cc: Seq<Cell>, m: MV, o: int, mi: MV, i0: int)
    requires est(cc, m, o, mi, i0, cc.len() as int)
    ensures eqc(cc, m, o, mi, i0, cc.len() as int)
{}
pub proof fn lemma_e_elem(cc: Seq<Cell>, m: MV, o: int, mi: MV, i0: int, d: int, b: Seq<Cell>)
    requires est(cc, m, o, mi, i0, d), same_run(cc, d, b)
    ensures wf(b, m, o + d), wf(b, mi, i0 + d), o + d + b.len() <= m.b.len(), i0 + d + b.len() <= mi.b.len(),
{ lemma_wf_sub(cc, b, m, o, d); lemma_wf_sub(cc, b, mi, i0, d); }
// a part is equal: the prefix grows; a part differs: the whole differs
pub proof fn lemma_e_part(cc: Seq<Cell>, m: MV, o: int, mi: MV, i0: int, d: int, b: Seq<Cell>)
    requires est(cc, m, o, mi, i0, d), same_run(cc, d, b)
    ensures eqc(b, m, o + d, mi, i0 + d, b.len() as int) ==> est(cc, m, o, mi, i0, d + b.len()),
        !eqc(b, m, o + d, mi, i0 + d, b.len() as int) ==> !eqc(cc, m, o, mi, i0, cc.len() as int)
{
    if eqc(b, m, o + d, mi, i0 + d, b.len() as int) {
        assert forall|j: int| 0 <= j < d + b.len() && j < cc.len() implies celleq(#[trigger] cc[j], m, o + j, mi, i0 + j) by {
            if j < d { assert(celleq(cc[j], m, o + j, mi, i0 + j)); }
            else { assert(cc[d + (j - d)] == b[j - d]); assert(celleq(b[j - d], m, o + d + (j - d), mi, i0 + d + (j - d))); }
        }
    } else if eqc(cc, m, o, mi, i0, cc.len() as int) {
        assert forall|j: int| 0 <= j < b.len() implies celleq(#[trigger] b[j], m, o + d + j, mi, i0 + d + j) by {
            assert(cc[d + j] == b[j]); assert(celleq(cc[d + j], m, o + (d + j), mi, i0 + (d + j)));
        }
    }
}
pub open spec fn bytes_eq(m: MV, o: int, mi: MV, i: int, n: int) -> bool { forall|j: int| 0 <= j < n ==> #[trigger] m.b[o + j] == mi.b[i + j] }
pub proof fn lemma_e_data(cc: Seq<Cell>, m: MV, o: int, mi: MV, i0: int, d: int, n: nat)
    requires est(cc, m, o, mi, i0, d), same_run(cc, d, datas(n))
    ensures n > 0 ==> free(m, o + d, n as int), o + d + n <= m.b.len(), n > 0 ==> free(mi, i0 + d, n as int), i0 + d + n <= mi.b.len(),
        bytes_eq(m, o + d, mi, i0 + d, n as int) ==> est(cc, m, o, mi, i0, d + n),
        !bytes_eq(m, o + d, mi, i0 + d, n as int) ==> !eqc(cc, m, o, mi, i0, cc.len() as int)
{
    let b = datas(n);
    assert forall|j: int| 0 <= j < n implies (#[trigger] cc[d + j] is Data || cc[d + j] is Pad) by { assert(cc[d + j] == b[j]); }
    lemma_free_run(cc, m, o, d, n as int);
    lemma_free_run(cc, mi, i0, d, n as int);
    lemma_wf_sub(cc, b, m, o, d); lemma_wf_sub(cc, b, mi, i0, d);
    if !bytes_eq(m, o + d, mi, i0 + d, n as int) {
        let j = choose|j: int| 0 <= j < n && #[trigger] m.b[o + d + j] != mi.b[i0 + d + j];
        assert(b[j] == Cell::Data && !celleq(b[j], m, o + d + j, mi, i0 + d + j));
    }
    lemma_e_part(cc, m, o, mi, i0, d, b);
}
pub proof fn lemma_e_skip(cc: Seq<Cell>, m: MV, o: int, mi: MV, i0: int, d: int, n: nat)
    requires est(cc, m, o, mi, i0, d), same_run(cc, d, pads(n))
    ensures est(cc, m, o, mi, i0, d + n), o + d + n <= m.b.len(), i0 + d + n <= mi.b.len()
{
    lemma_e_elem(cc, m, o, mi, i0, d, pads(n));
    lemma_e_part(cc, m, o, mi, i0, d, pads(n));
}
pub proof fn lemma_e_cont(cc: Seq<Cell>, m: MV, o: int, mi: MV, i0: int, d: int, p: usize, e: Seq<Cell>)
    requires est(cc, m, o, mi, i0, d), same_run(cc, d, cont(p, e)), is_cont(p)
    ensures has(m, o + d, p), o + d + csize(p) <= m.b.len(), has(mi, i0 + d, p), i0 + d + csize(p) <= mi.b.len(), lay(p, e),
        forall|i: int| 0 <= i < m.c[o + d].e.len() ==> wf(e, #[trigger] m.c[o + d].e[i], 0),
        forall|i: int| 0 <= i < mi.c[i0 + d].e.len() ==> wf(e, #[trigger] mi.c[i0 + d].e[i], 0),
        elems_eq(e, m.c[o + d].e, mi.c[i0 + d].e) ==> est(cc, m, o, mi, i0, d + csize(p)),
        !elems_eq(e, m.c[o + d].e, mi.c[i0 + d].e) ==> !eqc(cc, m, o, mi, i0, cc.len() as int)
{
    axiom_cont(p);
    let b = cont(p, e);
    assert(cc[d + 0] == cont(p, e)[0]); assert(cellok(cc[d], m, o + d)); assert(cellok(cc[d], mi, i0 + d));
    lemma_e_elem(cc, m, o, mi, i0, d, b);
    assert(b[0] == Cell::Cont(p, e));
    let q = elems_eq(e, m.c[o + d].e, mi.c[i0 + d].e);
    assert(celleq(b[0], m, o + d + 0, mi, i0 + d + 0) == q);
    lemma_e_part(cc, m, o, mi, i0, d, b);
    if q { assert forall|j: int| 0 <= j < b.len() implies celleq(#[trigger] b[j], m, o + d + j, mi, i0 + d + j) by { } }
}
//@fn vcompare file=typelib/value_ops.cc name=compare static=yes params=out_buffer,in_buffer,begin,end throws=yes filter=Typelib::ValueOps
//@locals it:OpIt<'a>
//@spec
    requires begin.v == end.v, begin.i <= end.i, end.i == end.v@.len(), blk(begin.v@, begin.i as int) is Some,
        old(mem_out_buffer)@.b.len() <= usize::MAX, wf(bc(begin.v@, begin.i as int), old(mem_out_buffer)@, out_buffer as int),
        old(mem_in_buffer)@.b.len() <= usize::MAX, wf(bc(begin.v@, begin.i as int), old(mem_in_buffer)@, in_buffer as int)
    ensures r is Ok, final(mem_in_buffer)@ == old(mem_in_buffer)@, final(mem_out_buffer)@ == old(mem_out_buffer)@,
        r->Ok_0.0 <==> eqc(bc(begin.v@, begin.i as int), old(mem_out_buffer)@, out_buffer as int, old(mem_in_buffer)@, in_buffer as int, bc(begin.v@, begin.i as int).len() as int),
        r->Ok_0.0 ==> r->Ok_0.3.v == begin.v && r->Ok_0.3.i == be(begin.v@, begin.i as int)
            && r->Ok_0.1 == out_buffer + bc(begin.v@, begin.i as int).len() && r->Ok_0.2 == in_buffer + bc(begin.v@, begin.i as int).len()
    decreases end.i - begin.i
//@hide blk sb rep at wf free cellok est op_run eqc celleq
//@at entry
    let ghost s = begin.v@; let ghost cc = bc(s, begin.i as int); let ghost e0 = be(s, begin.i as int); let ghost m = mem_out_buffer@; let ghost mi = mem_in_buffer@;
    let ghost o0 = out_buffer as int; let ghost i0 = in_buffer as int;
    proof { lemma_at_start(s, begin.i as int); lemma_e_start(cc, m, o0, mi, i0); lemma_e_elem(cc, m, o0, mi, i0, 0, cc); }
//@loop 1
    invariant it.v == begin.v, begin.i <= it.i <= end.i, o0 <= out_buffer, at(s, it.i as int, cc, out_buffer - o0, e0), in_buffer - i0 == out_buffer - o0,
        mem_in_buffer@ == mi, mem_out_buffer@ == m, est(cc, m, o0, mi, i0, out_buffer - o0)
    decreases end.i - it.i
//@at loop1.begin
    let ghost d0 = out_buffer - o0;
    proof { lemma_at_op(s, it.i as int, cc, d0, e0); }
//@at loop1.after
    proof { lemma_at_end(s, it.i as int, cc, out_buffer - o0, e0); lemma_e_end(cc, m, o0, mi, i0); }
//@at case:FLAG_MEMCPY.begin
    let ghost n = s[it.i + 1] as nat;
    proof { lemma_at_run(s, it.i as int, cc, d0, e0); lemma_op_run_data(s, it.i as int, cc, d0, e0); lemma_e_data(cc, m, o0, mi, i0, d0, n); }
//@at case:FLAG_SKIP.begin
    let ghost n = s[it.i + 1] as nat;
    proof { lemma_at_run(s, it.i as int, cc, d0, e0); lemma_op_run_data(s, it.i as int, cc, d0, e0); lemma_e_skip(cc, m, o0, mi, i0, d0, n); }
//@at case:FLAG_ARRAY.begin
    let ghost n = s[it.i + 1] as nat; let ghost b = bc(s, it.i + 2); let ghost e1 = be(s, it.i + 2);
    proof { lemma_at_array(s, it.i as int, cc, d0, e0); reveal_with_fuel(rep, 1); }
//@loop 2
    invariant i <= n, out_buffer == o0 + d0 + rep(b, i as nat).len(), in_buffer - i0 == out_buffer - o0,
        n == 0 || i > 0 ==> it.v == begin.v && it.i == e1,
        mem_in_buffer@ == mi, mem_out_buffer@ == m, est(cc, m, o0, mi, i0, out_buffer - o0)
    decreases n - i
//@at loop2.begin
    let ghost d2 = out_buffer - o0;
    proof { lemma_elem(cc, d0, b, i as nat, n); lemma_e_elem(cc, m, o0, mi, i0, d2, b); lemma_e_part(cc, m, o0, mi, i0, d2, b); }
//@at case:FLAG_CONTAINER.begin
    let ghost p = s[it.i + 1]; let ghost b = bc(s, it.i + 2); let ghost e1 = be(s, it.i + 2);
    proof { lemma_at_cont(s, it.i as int, cc, d0, e0); lemma_op_cont_run(s, it.i as int, cc, d0, e0, b, e1); lemma_skip_operand(s, it.i + 1); lemma_e_cont(cc, m, o0, mi, i0, d0, p, b); }
//@end
