//@include mem.rs
// ---------------------------------------------------------------- changes of memory
// same extent, same live containers
pub open spec fn shp(a: MV, b: MV) -> bool {
    &&& a.b.len() == b.b.len()
    &&& forall|k: int| #[trigger] b.c.dom().contains(k) <==> a.c.dom().contains(k)
    &&& forall|k: int| a.c.dom().contains(k) ==> (#[trigger] b.c[k]).p == a.c[k].p
}
// nothing changes outside [lo, hi)
pub open spec fn frm(a: MV, b: MV, lo: int, hi: int) -> bool {
    &&& forall|i: int| 0 <= i < a.b.len() && !(lo <= i < hi) ==> #[trigger] b.b[i] == a.b[i]
    &&& forall|k: int| !(lo <= k < hi) && a.c.dom().contains(k) ==> #[trigger] b.c[k] == a.c[k]
}
// nothing changes outside the cells [d, h) of the value at o
pub proof fn lemma_shp_free(a: MV, b: MV, o: int, n: int)
    requires shp(a, b)
    ensures free(a, o, n) == free(b, o, n), disj(a) == disj(b)
{
    assert forall|k: int| true implies #[trigger] a.c.dom().contains(k) == b.c.dom().contains(k) by {}
    assert forall|k: int| a.c.dom().contains(k) implies ext(a, k) == #[trigger] ext(b, k) by { assert(b.c[k].p == a.c[k].p); }
    if disj(a) {
        assert forall|k: int| #[trigger] b.c.dom().contains(k) implies 0 <= k && ext(b, k) <= b.b.len() && is_cont(b.c[k].p) by { assert(a.c.dom().contains(k)); assert(ext(a, k) == ext(b, k)); assert(b.c[k].p == a.c[k].p); }
        assert forall|k: int, q: int| #[trigger] b.c.dom().contains(k) && #[trigger] b.c.dom().contains(q) && k < q implies ext(b, k) <= q by { assert(a.c.dom().contains(k) && a.c.dom().contains(q)); assert(ext(a, k) == ext(b, k)); }
    }
    if disj(b) {
        assert forall|k: int| #[trigger] a.c.dom().contains(k) implies 0 <= k && ext(a, k) <= a.b.len() && is_cont(a.c[k].p) by { assert(b.c.dom().contains(k)); assert(ext(a, k) == ext(b, k)); assert(b.c[k].p == a.c[k].p); }
        assert forall|k: int, q: int| #[trigger] a.c.dom().contains(k) && #[trigger] a.c.dom().contains(q) && k < q implies ext(a, k) <= q by { assert(b.c.dom().contains(k) && b.c.dom().contains(q)); assert(ext(a, k) == ext(b, k)); }
    }
    if free(a, o, n) { assert forall|k: int| #[trigger] b.c.dom().contains(k) implies ext(b, k) <= o || o + n <= k by { assert(a.c.dom().contains(k)); assert(ext(a, k) == ext(b, k)); } }
    if free(b, o, n) { assert forall|k: int| #[trigger] a.c.dom().contains(k) implies ext(a, k) <= o || o + n <= k by { assert(b.c.dom().contains(k)); assert(ext(a, k) == ext(b, k)); } }
}
pub proof fn lemma_cellok_shp(x: Cell, a: MV, b: MV, k: int)
    requires shp(a, b), cellok(x, a, k), x is Cont ==> b.c[k] == a.c[k]
    ensures cellok(x, b, k)
{ lemma_shp_free(a, b, k, 1); }
// well-formedness after a change confined to the cells of a sub-block that is itself well-formed after it
pub proof fn lemma_wf_merge(c: Seq<Cell>, a: MV, b: MV, o: int, d: int, blkc: Seq<Cell>)
    requires wf(c, a, o), shp(a, b), frm(a, b, o + d, o + d + blkc.len()), d >= 0, same_run(c, d, blkc), wf(blkc, b, o + d)
    ensures wf(c, b, o)
{
    lemma_shp_free(a, b, 0, 0);
    assert forall|j: int| 0 <= j < c.len() implies cellok(#[trigger] c[j], b, o + j) by {
        assert(cellok(c[j], a, o + j));
        if d <= j < d + blkc.len() {
            assert(c[d + (j - d)] == blkc[j - d]);
            assert(cellok(blkc[j - d], b, o + d + (j - d)));
        } else { lemma_cellok_shp(c[j], a, b, o + j); }
    }
}
pub proof fn lemma_wf_same(c: Seq<Cell>, a: MV, b: MV, o: int)
    requires wf(c, a, o), a.b.len() == b.b.len(), a.c == b.c
    ensures wf(c, b, o), shp(a, b)
{
    lemma_shp_free(a, b, 0, 0);
    assert forall|j: int| 0 <= j < c.len() implies cellok(#[trigger] c[j], b, o + j) by { assert(cellok(c[j], a, o + j)); lemma_cellok_shp(c[j], a, b, o + j); }
}
// a container's content replaced by another well-formed content
pub proof fn lemma_wf_cont(c: Seq<Cell>, a: MV, b: MV, o: int, d: int, p: usize, e: Seq<Cell>, es: Seq<MV>)
    requires wf(c, a, o), 0 <= d < c.len(), c[d] == Cell::Cont(p, e), a.b.len() == b.b.len(), b.c == a.c.insert(o + d, CV { p: p, e: es }),
        es.len() <= usize::MAX, forall|k: int| 0 <= k < es.len() ==> wf(e, #[trigger] es[k], 0)
    ensures wf(c, b, o), shp(a, b)
{
    assert(cellok(c[d], a, o + d));
    assert forall|k: int| #[trigger] b.c.dom().contains(k) <==> a.c.dom().contains(k) by {}
    lemma_shp_free(a, b, 0, 0);
    assert forall|j: int| 0 <= j < c.len() implies cellok(#[trigger] c[j], b, o + j) by {
        assert(cellok(c[j], a, o + j));
        if j != d { lemma_cellok_shp(c[j], a, b, o + j); }
    }
}
pub proof fn lemma_dmp_frame(c: Seq<Cell>, a: MV, b: MV, o: int, d: int, lo: int, hi: int)
    requires frm(a, b, lo, hi), wf(c, a, o), 0 <= d <= c.len(), o + d <= lo || hi <= o
    ensures dmp(c, b, o, d) == dmp(c, a, o, d)
    decreases d
{
    if d > 0 {
        lemma_dmp_frame(c, a, b, o, d - 1, lo, hi);
        assert(cellok(c[d - 1], a, o + (d - 1)));
        if c[d - 1] is Cont { assert(a.c.dom().contains(o + d - 1)); assert(b.c[o + d - 1] == a.c[o + d - 1]); }
        assert(b.b[o + d - 1] == a.b[o + d - 1]);
    }
}
pub proof fn lemma_frm_trans(a: MV, b: MV, c: MV, lo: int, mid: int, hi: int)
    requires shp(a, b), shp(b, c), frm(a, b, lo, mid), frm(b, c, mid, hi), lo <= mid <= hi
    ensures shp(a, c), frm(a, c, lo, hi)
{
    assert forall|i: int| 0 <= i < a.b.len() && !(lo <= i < hi) implies #[trigger] c.b[i] == a.b[i] by { assert(b.b[i] == a.b[i]); }
    assert forall|k: int| !(lo <= k < hi) && a.c.dom().contains(k) implies #[trigger] c.c[k] == a.c[k] by { assert(b.c.dom().contains(k)); assert(b.c[k] == a.c[k]); }
    assert forall|k: int| #[trigger] c.c.dom().contains(k) <==> a.c.dom().contains(k) by { assert(b.c.dom().contains(k) <==> a.c.dom().contains(k)); }
    assert forall|k: int| a.c.dom().contains(k) implies (#[trigger] c.c[k]).p == a.c[k].p by { assert(b.c.dom().contains(k)); assert(b.c[k].p == a.c[k].p); }
}

// ---------------------------------------------------------------- dumps are prefix-free
pub proof fn lemma_le64(a: usize, b: usize)
    requires le64(a) == le64(b)
    ensures a == b
{
    let x = le64(a); let y = le64(b);
    assert(x[0] == y[0] && x[1] == y[1] && x[2] == y[2] && x[3] == y[3] && x[4] == y[4] && x[5] == y[5] && x[6] == y[6] && x[7] == y[7]);
    let a = a as u64; let b = b as u64;
    assert(a == b) by (bit_vector)
        requires (a & 0xff) as u8 == (b & 0xff) as u8, ((a >> 8) & 0xff) as u8 == ((b >> 8) & 0xff) as u8, ((a >> 16) & 0xff) as u8 == ((b >> 16) & 0xff) as u8,
            ((a >> 24) & 0xff) as u8 == ((b >> 24) & 0xff) as u8, ((a >> 32) & 0xff) as u8 == ((b >> 32) & 0xff) as u8, ((a >> 40) & 0xff) as u8 == ((b >> 40) & 0xff) as u8,
            ((a >> 48) & 0xff) as u8 == ((b >> 48) & 0xff) as u8, ((a >> 56) & 0xff) as u8 == ((b >> 56) & 0xff) as u8;
}
pub proof fn lemma_cat(a: Seq<u8>, b: Seq<u8>, x: Seq<u8>, y: Seq<u8>)
    requires a + x == b + y, a.len() == b.len()
    ensures a == b, x == y
{
    assert(a =~= (a + x).take(a.len() as int)); assert(b =~= (b + y).take(b.len() as int));
    assert(x =~= (a + x).skip(a.len() as int)); assert(y =~= (b + y).skip(b.len() as int));
}
pub proof fn lemma_pf(c: Seq<Cell>, a: MV, ao: int, b: MV, bo: int, d: int, x: Seq<u8>, y: Seq<u8>)
    requires wf(c, a, ao), wf(c, b, bo), 0 <= d <= c.len(), dmp(c, a, ao, d) + x == dmp(c, b, bo, d) + y
    ensures eqc(c, a, ao, b, bo, d), x == y, dmp(c, a, ao, d) == dmp(c, b, bo, d)
    decreases c, 0int, d
{
    if d == 0 { assert(dmp(c, a, ao, d) + x =~= x); assert(dmp(c, b, bo, d) + y =~= y); }
    else {
        let ta = cell_dump(c[d - 1], a, ao + d - 1); let tb = cell_dump(c[d - 1], b, bo + d - 1);
        assert(dmp(c, a, ao, d - 1) + (ta + x) =~= dmp(c, a, ao, d) + x);
        assert(dmp(c, b, bo, d - 1) + (tb + y) =~= dmp(c, b, bo, d) + y);
        lemma_pf(c, a, ao, b, bo, d - 1, ta + x, tb + y);
        assert(cellok(c[d - 1], a, ao + (d - 1))); assert(cellok(c[d - 1], b, bo + (d - 1)));
        match c[d - 1] {
            Cell::Data => { lemma_cat(ta, tb, x, y); assert(ta[0] == tb[0]); }
            Cell::Pad => { assert(ta + x =~= x); assert(tb + y =~= y); }
            Cell::Tail => { assert(ta + x =~= x); assert(tb + y =~= y); }
            Cell::Cont(p, e) => {
                let ea = a.c[ao + d - 1].e; let eb = b.c[bo + d - 1].e;
                let la = le64(ea.len() as usize); let lb = le64(eb.len() as usize);
                let da = dmpe(e, ea, ea.len() as int); let db = dmpe(e, eb, eb.len() as int);
                assert(la + (da + x) =~= ta + x); assert(lb + (db + y) =~= tb + y);
                lemma_cat(la, lb, da + x, db + y);
                lemma_le64(ea.len() as usize, eb.len() as usize);
                lemma_pfe(c, d - 1, p, e, ea, eb, ea.len() as int, x, y);
            }
        }
        assert forall|j: int| 0 <= j < d && j < c.len() implies celleq(#[trigger] c[j], a, ao + j, b, bo + j) by { if j < d - 1 {} }
    }
}
pub proof fn lemma_pfe(c: Seq<Cell>, j: int, p: usize, e: Seq<Cell>, a: Seq<MV>, b: Seq<MV>, k: int, x: Seq<u8>, y: Seq<u8>)
    requires 0 <= j < c.len(), c[j] == Cell::Cont(p, e), 0 <= k <= a.len(), a.len() == b.len(), dmpe(e, a, k) + x == dmpe(e, b, k) + y,
        forall|i: int| 0 <= i < a.len() ==> wf(e, #[trigger] a[i], 0), forall|i: int| 0 <= i < b.len() ==> wf(e, #[trigger] b[i], 0)
    ensures x == y, dmpe(e, a, k) == dmpe(e, b, k), forall|i: int| 0 <= i < k ==> eqc(e, #[trigger] a[i], 0, b[i], 0, e.len() as int)
    decreases e, 1int, k
{
    if k == 0 { assert(dmpe(e, a, k) + x =~= x); assert(dmpe(e, b, k) + y =~= y); }
    else {
        let ta = dmp(e, a[k - 1], 0, e.len() as int); let tb = dmp(e, b[k - 1], 0, e.len() as int);
        assert(dmpe(e, a, k - 1) + (ta + x) =~= dmpe(e, a, k) + x);
        assert(dmpe(e, b, k - 1) + (tb + y) =~= dmpe(e, b, k) + y);
        lemma_pfe(c, j, p, e, a, b, k - 1, ta + x, tb + y);
        lemma_pf(e, a[k - 1], 0, b[k - 1], 0, e.len() as int, x, y);
    }
}
pub open spec fn cell_dump(x: Cell, m: MV, k: int) -> Seq<u8> {
    match x {
        Cell::Data => seq![m.b[k]],
        Cell::Pad => seq![],
        Cell::Tail => seq![],
        Cell::Cont(p, e) => le64(m.c[k].e.len() as usize) + dmpe(e, m.c[k].e, m.c[k].e.len() as int),
    }
}
// equal values have the same dump
pub proof fn lemma_eq_dmp(c: Seq<Cell>, a: MV, ao: int, b: MV, bo: int, d: int)
    requires eqc(c, a, ao, b, bo, d), 0 <= d <= c.len()
    ensures dmp(c, a, ao, d) == dmp(c, b, bo, d)
    decreases c, 0int, d
{
    if d > 0 {
        assert forall|j: int| 0 <= j < d - 1 && j < c.len() implies celleq(#[trigger] c[j], a, ao + j, b, bo + j) by {}
        lemma_eq_dmp(c, a, ao, b, bo, d - 1);
        assert(celleq(c[d - 1], a, ao + (d - 1), b, bo + (d - 1)));
        match c[d - 1] {
            Cell::Cont(p, e) => { lemma_eq_dmpe(c, d - 1, p, e, a.c[ao + d - 1].e, b.c[bo + d - 1].e, a.c[ao + d - 1].e.len() as int); }
            _ => {}
        }
    }
}
pub proof fn lemma_eq_dmpe(c: Seq<Cell>, j: int, p: usize, e: Seq<Cell>, a: Seq<MV>, b: Seq<MV>, k: int)
    requires 0 <= j < c.len(), c[j] == Cell::Cont(p, e), 0 <= k <= a.len(), a.len() == b.len(), forall|i: int| 0 <= i < k ==> eqc(e, #[trigger] a[i], 0, b[i], 0, e.len() as int)
    ensures dmpe(e, a, k) == dmpe(e, b, k)
    decreases e, 1int, k
{
    if k > 0 { lemma_eq_dmpe(c, j, p, e, a, b, k - 1); lemma_eq_dmp(e, a[k - 1], 0, b[k - 1], 0, e.len() as int); }
}
pub open spec fn cont_changed(m: MV, m2: MV, o: int, p: usize, es: Seq<MV>) -> bool {
    &&& m2.b.len() == m.b.len() && m2.c == m.c.insert(o, CV { p: p, e: es })
    &&& forall|i: int| 0 <= i < m.b.len() && !(o <= i < o + csize(p)) ==> #[trigger] m2.b[i] == m.b[i]
}
impl ContRef {
    #[verifier::external_body]
    pub fn clear(self, m: &mut Mem, o: usize)
        requires has(old(m)@, o as int, self.h())
        ensures cont_changed(old(m)@, final(m)@, o as int, self.h(), Seq::<MV>::empty())
    { unimplemented!() }
}
#[verifier::external_body]
pub fn mem_set(m: &mut Mem, o: usize, v: u8, n: usize)
    requires o + n <= old(m)@.b.len(), n > 0 ==> free(old(m)@, o as int, n as int)
    ensures final(m)@.c == old(m)@.c, final(m)@.b == splice(old(m)@.b, o as int, Seq::new(n as nat, |i: int| v))
{ unimplemented!() }
#[verifier::external_body]
pub fn mem_cpy(m: &mut Mem, o: usize, p: CPtr, n: usize)
    requires o + n <= old(m)@.b.len(), n > 0 ==> free(old(m)@, o as int, n as int), 0 <= p.o(), p.o() + n <= p.m().b.len(), n > 0 ==> free(p.m(), p.o(), n as int)
    ensures final(m)@.c == old(m)@.c, final(m)@.b == splice(old(m)@.b, o as int, p.m().b.subrange(p.o(), p.o() + n))
{ unimplemented!() }
#[verifier::external_body]
pub fn mem_cmp(p: CPtr, q: CPtr, n: usize) -> (r: i32)
    requires 0 <= p.o(), p.o() + n <= p.m().b.len(), n > 0 ==> free(p.m(), p.o(), n as int), 0 <= q.o(), q.o() + n <= q.m().b.len(), n > 0 ==> free(q.m(), q.o(), n as int)
    ensures r == 0 <==> (forall|j: int| 0 <= j < n ==> #[trigger] p.m().b[p.o() + j] == q.m().b[q.o() + j])
{ unimplemented!() }
// skipping from the container operand
pub proof fn lemma_skip_operand(s: Seq<usize>, i: int)
    requires 0 <= i < s.len(), s[i] > 4
    ensures sb(s, i, 0) == sb(s, i + 1, 0)
{}
pub proof fn lemma_op_run_data(s: Seq<usize>, i: int, cc: Seq<Cell>, d: int, e0: int)
    requires op_run(s, i, cc, d, e0), d >= 0
    ensures i + 1 < s.len(), d + s[i + 1] <= cc.len(), at(s, i + 2, cc, d + s[i + 1], e0), s[i] == FLAG_MEMCPY ==> same_run(cc, d, datas(s[i + 1] as nat)), s[i] == FLAG_SKIP ==> same_run(cc, d, pads(s[i + 1] as nat))
{}
pub proof fn lemma_op_cont_run(s: Seq<usize>, i: int, cc: Seq<Cell>, d: int, e0: int, b: Seq<Cell>, e1: int)
    requires op_cont(s, i, cc, d, e0, b, e1), d >= 0, i >= 0
    ensures same_run(cc, d, cont(s[i + 1], b)), d + csize(s[i + 1]) <= cc.len(), cont(s[i + 1], b).len() == csize(s[i + 1]), sb(s, i + 1, 0) == e1
{
    let h = cont(s[i + 1], b);
    lemma_skip_operand(s, i + 1);
    assert forall|j: int| 0 <= j < h.len() implies #[trigger] cc[d + j] == h[j] by { if j == 0 {} else { assert(cc[d + j] == Cell::Tail); } }
}
