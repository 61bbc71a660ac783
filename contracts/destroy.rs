//@include frame.rs
// m2 is m with the container at o destroyed
pub open spec fn cont_gone(m: MV, m2: MV, o: int, p: usize) -> bool {
    &&& m2.b.len() == m.b.len() && m2.c == m.c.remove(o)
    &&& forall|i: int| 0 <= i < m.b.len() && !(o <= i < o + csize(p)) ==> #[trigger] m2.b[i] == m.b[i]
}
impl ContRef {
    #[verifier::external_body]
    pub fn destroy(self, m: &mut Mem, o: usize)
        requires has(old(m)@, o as int, self.h())
        ensures cont_gone(old(m)@, final(m)@, o as int, self.h())
    { unimplemented!() }
}
pub open spec fn is_cont_cell(cc: Seq<Cell>, j: int) -> bool { 0 <= j < cc.len() && cc[j] is Cont }
// after the first d cells: exactly the containers of these cells are gone, only their bytes may have changed
pub open spec fn dst(cc: Seq<Cell>, m0: MV, m: MV, o: int, d: int) -> bool {
    &&& wf(cc, m0, o) && 0 <= d <= cc.len() && m.b.len() == m0.b.len() && disj(m)
    &&& forall|k: int| #[trigger] m.c.dom().contains(k) <==> m0.c.dom().contains(k) && !(o <= k < o + d && is_cont_cell(cc, k - o))
    &&& forall|k: int| #[trigger] m.c.dom().contains(k) ==> m.c[k] == m0.c[k]
    &&& forall|i: int| 0 <= i < m0.b.len() && o <= i < o + d && !(cc[i - o] is Cont || cc[i - o] is Tail) ==> #[trigger] m.b[i] == m0.b[i]
    &&& forall|i: int| 0 <= i < m0.b.len() && !(o <= i < o + d) ==> #[trigger] m.b[i] == m0.b[i]
}
pub proof fn lemma_d_start(cc: Seq<Cell>, m: MV, o: int)
    requires wf(cc, m, o)
    ensures dst(cc, m, m, o, 0)
{}
pub proof fn lemma_d_len(cc: Seq<Cell>, m0: MV, m: MV, o: int, d: int)
    requires dst(cc, m0, m, o, d)
    ensures m.b.len() == m0.b.len(), o + cc.len() <= m.b.len()
{}
// what is left after d cells is a value of the following cells
pub proof fn lemma_d_elem(cc: Seq<Cell>, m0: MV, m: MV, o: int, d: int, b: Seq<Cell>)
    requires dst(cc, m0, m, o, d), same_run(cc, d, b)
    ensures wf(b, m, o + d), o + d + b.len() <= m.b.len()
{
    assert forall|j: int| 0 <= j < b.len() implies cellok(#[trigger] b[j], m, o + d + j) by {
        assert(cc[d + j] == b[j]); assert(cellok(cc[d + j], m0, o + (d + j)));
        match b[j] {
            Cell::Data => { lemma_free_less(m0, m, o + d + j); }
            Cell::Pad => { lemma_free_less(m0, m, o + d + j); }
            Cell::Tail => {}
            Cell::Cont(p, e) => { assert(m.c.dom().contains(o + d + j)); }
        }
    }
}
pub proof fn lemma_free_less(m0: MV, m: MV, k: int)
    requires free(m0, k, 1), forall|q: int| #[trigger] m.c.dom().contains(q) ==> m0.c.dom().contains(q) && m.c[q] == m0.c[q]
    ensures free(m, k, 1)
{
    assert forall|q: int| #[trigger] m.c.dom().contains(q) implies ext(m, q) <= k || k + 1 <= q by { assert(m0.c.dom().contains(q)); assert(ext(m, q) == ext(m0, q)); }
}
pub proof fn lemma_d_part(cc: Seq<Cell>, m0: MV, m: MV, m2: MV, o: int, d: int, b: Seq<Cell>)
    requires dst(cc, m0, m, o, d), same_run(cc, d, b), dst(b, m, m2, o + d, b.len() as int)
    ensures dst(cc, m0, m2, o, d + b.len())
{
    assert forall|j: int| d <= j < d + b.len() implies #[trigger] cc[j] == b[j - d] by { assert(cc[d + (j - d)] == b[j - d]); }
    assert forall|k: int| #[trigger] m2.c.dom().contains(k) <==> m0.c.dom().contains(k) && !(o <= k < o + d + b.len() && is_cont_cell(cc, k - o)) by {
        assert(m.c.dom().contains(k) <==> m0.c.dom().contains(k) && !(o <= k < o + d && is_cont_cell(cc, k - o)));
        assert(m2.c.dom().contains(k) <==> m.c.dom().contains(k) && !(o + d <= k < o + d + b.len() && is_cont_cell(b, k - o - d)));
        if o + d <= k < o + d + b.len() { assert(cc[k - o] == b[k - o - d]); }
    }
    assert forall|k: int| #[trigger] m2.c.dom().contains(k) implies m2.c[k] == m0.c[k] by { assert(m.c.dom().contains(k)); }
    assert forall|i: int| 0 <= i < m0.b.len() && o <= i < o + d + b.len() && !(cc[i - o] is Cont || cc[i - o] is Tail) implies #[trigger] m2.b[i] == m0.b[i] by {
        if i < o + d { assert(m.b[i] == m0.b[i]); assert(m2.b[i] == m.b[i]); }
        else { assert(cc[i - o] == b[i - o - d]); assert(m2.b[i] == m.b[i]); assert(m.b[i] == m0.b[i]); }
    }
    assert forall|i: int| 0 <= i < m0.b.len() && !(o <= i < o + d + b.len()) implies #[trigger] m2.b[i] == m0.b[i] by { assert(m.b[i] == m0.b[i]); assert(m2.b[i] == m.b[i]); }
}
pub proof fn lemma_d_raw(cc: Seq<Cell>, m0: MV, m: MV, o: int, d: int, n: nat, b: Seq<Cell>)
    requires dst(cc, m0, m, o, d), same_run(cc, d, b), b == datas(n) || b == pads(n)
    ensures dst(cc, m0, m, o, d + n), o + d + n <= m.b.len()
{
    lemma_d_elem(cc, m0, m, o, d, b);
    assert(forall|j: int| 0 <= j < n ==> !(#[trigger] b[j] is Cont));
    assert(dst(b, m, m, o + d, n as int));
    lemma_d_part(cc, m0, m, m, o, d, b);
}
pub proof fn lemma_d_cont(cc: Seq<Cell>, m0: MV, m: MV, o: int, d: int, p: usize, e: Seq<Cell>)
    requires dst(cc, m0, m, o, d), same_run(cc, d, cont(p, e)), is_cont(p)
    ensures has(m, o + d, p), o + d + csize(p) <= m.b.len(),
        forall|m2: MV| #[trigger] cont_gone(m, m2, o + d, p) ==> dst(cc, m0, m2, o, d + csize(p))
{
    axiom_cont(p);
    let b = cont(p, e);
    lemma_d_elem(cc, m0, m, o, d, b);
    assert(b[0] == Cell::Cont(p, e)); assert(cellok(b[0], m, o + d + 0));
    assert forall|m2: MV| #[trigger] cont_gone(m, m2, o + d, p) implies dst(cc, m0, m2, o, d + csize(p)) by {
        assert forall|k: int| #[trigger] m2.c.dom().contains(k) <==> m.c.dom().contains(k) && !(o + d <= k < o + d + csize(p) && is_cont_cell(b, k - o - d)) by {
            if o + d < k < o + d + csize(p) { assert(b[k - o - d] == Cell::Tail); }
        }
        assert forall|k: int| #[trigger] m2.c.dom().contains(k) implies m2.c[k] == m.c[k] by {}
        assert(disj(m2)) by {
            assert forall|k: int| #[trigger] m2.c.dom().contains(k) implies 0 <= k && ext(m2, k) <= m2.b.len() && is_cont(m2.c[k].p) by { assert(m.c.dom().contains(k)); assert(ext(m2, k) == ext(m, k)); }
            assert forall|k: int, q: int| #[trigger] m2.c.dom().contains(k) && #[trigger] m2.c.dom().contains(q) && k < q implies ext(m2, k) <= q by { assert(m.c.dom().contains(k) && m.c.dom().contains(q)); assert(ext(m2, k) == ext(m, k)); }
        }
        assert forall|j: int| 0 <= j < b.len() implies #[trigger] b[j] is Cont || b[j] is Tail by {}
        assert(dst(b, m, m2, o + d, b.len() as int));
        lemma_d_part(cc, m0, m, m2, o, d, b);
    }
}
//@fn vdestroy file=typelib/value_ops.cc name=destroy static=yes params=buffer,begin,end throws=yes filter=Typelib::ValueOps
//@locals it:OpIt<'a>
//@spec
    requires begin.v == end.v, begin.i <= end.i, end.i == end.v@.len(), blk(begin.v@, begin.i as int) is Some,
        old(mem_buffer)@.b.len() <= usize::MAX, wf(bc(begin.v@, begin.i as int), old(mem_buffer)@, buffer as int)
    ensures r is Ok, r->Ok_0.1.v == begin.v, r->Ok_0.1.i == be(begin.v@, begin.i as int), r->Ok_0.0 == buffer + bc(begin.v@, begin.i as int).len(),
        dst(bc(begin.v@, begin.i as int), old(mem_buffer)@, final(mem_buffer)@, buffer as int, bc(begin.v@, begin.i as int).len() as int)
    decreases end.i - begin.i
//@hide blk sb rep at wf free cellok dst op_run cont_gone
//@at entry
    let ghost s = begin.v@; let ghost cc = bc(s, begin.i as int); let ghost e0 = be(s, begin.i as int); let ghost m0 = mem_buffer@;
    let ghost o0 = buffer as int;
    proof { lemma_at_start(s, begin.i as int); lemma_d_start(cc, m0, o0); }
//@loop 1
    invariant it.v == begin.v, begin.i <= it.i <= end.i, o0 <= buffer, at(s, it.i as int, cc, buffer - o0, e0),
        dst(cc, m0, mem_buffer@, o0, buffer - o0)
    decreases end.i - it.i
//@at loop1.begin
    let ghost d0 = buffer - o0; let ghost m1 = mem_buffer@;
    proof { lemma_at_op(s, it.i as int, cc, d0, e0); lemma_d_len(cc, m0, m1, o0, d0); }
//@at loop1.after
    proof { lemma_at_end(s, it.i as int, cc, buffer - o0, e0); }
//@at case:FLAG_MEMCPY.begin
    let ghost n = s[it.i + 1] as nat;
    proof { lemma_at_run(s, it.i as int, cc, d0, e0); lemma_op_run_data(s, it.i as int, cc, d0, e0);
            lemma_d_raw(cc, m0, m1, o0, d0, n, if s[it.i as int] == FLAG_MEMCPY { datas(n) } else { pads(n) }); }
//@at case:FLAG_ARRAY.begin
    let ghost n = s[it.i + 1] as nat; let ghost b = bc(s, it.i + 2); let ghost e1 = be(s, it.i + 2);
    proof { lemma_at_array(s, it.i as int, cc, d0, e0); reveal_with_fuel(rep, 1); }
//@loop 2
    invariant i <= n, buffer == o0 + d0 + rep(b, i as nat).len(), 
        n == 0 || i > 0 ==> it.v == begin.v && it.i == e1,
        dst(cc, m0, mem_buffer@, o0, buffer - o0)
    decreases n - i
//@at loop2.begin
    let ghost m2 = mem_buffer@; let ghost d2 = buffer - o0;
    proof { lemma_elem(cc, d0, b, i as nat, n); lemma_d_len(cc, m0, m2, o0, d2); lemma_d_elem(cc, m0, m2, o0, d2, b); }
//@at call:vdestroy#1.after
    proof { lemma_d_part(cc, m0, m2, mem_buffer@, o0, d2, b); }
//@at case:FLAG_CONTAINER.begin
    let ghost p = s[it.i + 1]; let ghost b = bc(s, it.i + 2); let ghost e1 = be(s, it.i + 2);
    proof { lemma_at_cont(s, it.i as int, cc, d0, e0); lemma_op_cont_run(s, it.i as int, cc, d0, e0, b, e1); lemma_skip_operand(s, it.i + 1); lemma_d_cont(cc, m0, m1, o0, d0, p, b); }
//@end
